"""C07: direct time <-> amplitude/phase equals the two-step propagation."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, close, close_cov, Discard, enlarge, expect, law, unpack
from .c04 import D, ux_args, ux_spec
from .c06 import ang, cov_of, j_to_cart, j_to_polar, polar

RULE = "at least 4 samples or 2 lines, amplitudes away from zero, non-zero uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): differential against two-step propagation and explicit Jacobians"


def safe_signal(spec, n):
    """a signal none of whose spectral lines vanishes"""
    x = gen.vec(spec, n)
    F = np.fft.rfft(x)
    if np.min(np.abs(F)) <= 1e-3 * np.max(np.abs(F)) or np.max(np.abs(F)) == 0:
        r = np.random.RandomState(spec["s"] + 9)
        A = np.exp(r.uniform(-1, 1, n // 2 + 1))
        P = r.uniform(-3, 3, n // 2 + 1)
        P[0] = 0.0 if P[0] > 0 else np.pi
        if n % 2 == 0:
            P[-1] = 0.0 if P[-1] > 0 else np.pi
        x = np.fft.irfft(A * np.exp(1j * P), n) * spec["a"]
    return x


@law("C07", gen.fd(n=gen.sizes(2, 14, 40), x=gen.vspec(wide=True), ux=ux_spec()), quick=900,
     nontrivial=lambda c: c["n"] >= 4 and c["ux"].get("v") != 0,
     classify=lambda c: [f"Ux={c['ux']['form']}", f"odd={c['n'] % 2}"])
def to_amplitude_phase(c):
    """time -> amplitude/phase: A = |rfft|, P = arg, covariance J U J^T, = two steps"""
    n = c["n"]
    x = safe_signal(c["x"], n)
    arg, U = ux_args(c["ux"], n)
    A, P, UAP = unpack(D().Time2AmpPhase(x, arg), 3)
    J0 = ref.dft_matrix(n, n)
    F = J0.dot(x)
    M = len(F) // 2
    Fc = ref.cplx(F)
    A, P = arr(A, (M,), "amplitude"), arr(P, (M,), "phase")
    top = np.max(np.abs(Fc)) + np.max(np.abs(x)) * n
    expect(np.all(np.abs(A - np.abs(Fc)) <= 1e-12 * top), "amplitudes differ from |rfft|")
    expect(np.all(ang(P, np.angle(Fc)) <= 1e-12 * top / np.abs(Fc)),
           "phases differ from arg rfft")
    J1, B1 = j_to_polar(F)
    if c["ux"]["form"] == "float":
        # white noise: only variances are carried, lines taken as uncorrelated
        close_cov(UAP, J1, np.diag(np.diag(J0.dot(U).dot(J0.T))), "covariance", rtol=1e-9,
                  bound=B1)
    else:
        close_cov(UAP, J1.dot(J0), U, "covariance", rtol=1e-9,
                  bound=B1.dot(np.ones(J0.shape)))
    F2, UF2 = unpack(D().GUM_DFT(x, arg), 2)
    A2, P2, UAP2 = unpack(D().DFT2AmpPhase(F2, UF2), 3)
    close(A, arr(A2), "amplitude vs two steps", rtol=1e-12)
    close(P, arr(P2), "phase vs two steps", rtol=1e-12)
    close(UAP, arr(UAP2), "covariance vs two steps", rtol=1e-12)


def back_case():
    return gen.fd(M=gen.sizes(2, 9, 25), s=gen.seeds(), special=st.booleans(),
                  form=st.sampled_from(["mat", "mat", "vec", "dia"]),
                  u=gen.cspec(wide=True), v=gen.uspec(), real_ends=st.booleans())


@law("C07", back_case(), quick=900, nontrivial=lambda c: c["M"] >= 3,
     classify=lambda c: [f"form={c['form']}", f"real_ends={c['real_ends']}"])
def to_time(c):
    """amplitude/phase -> time: irfft and J UAP J^T, = polar-to-Cartesian and inverse DFT"""
    M = c["M"]
    A, P = polar(c["s"], M, c["special"])
    if c["real_ends"]:
        P[0] = 0.0 if P[0] > 0 else np.pi
        P[-1] = 0.0 if P[-1] > 0 else np.pi
    arg, U = cov_of(c, M)
    if c["form"] == "dia":
        from scipy import sparse
        i = np.arange(M)
        arg = sparse.diags([np.diag(U), U[i, M + i], U[i, M + i]], [0, M, -M])
    x, Ux = unpack(D().AmpPhase2Time(A, P, arg), 2)
    N = 2 * (M - 1)
    J1 = ref.idft_matrix(M)
    J2, B2 = j_to_cart(A, P)
    close(x, J1.dot(np.r_[A * np.cos(P), A * np.sin(P)]), "time domain values", rtol=1e-11,
          scale=A.max())
    got = close_cov(Ux, J1.dot(J2), U, "time domain covariance", rtol=1e-10,
                    bound=np.full(J1.shape, 2.0 / N).dot(B2))
    m = np.max(np.abs(got))
    expect(np.all(np.abs(got - got.T) <= 1e-10 * m), "covariance is not symmetric")
    F, UF = unpack(D().AmpPhase2DFT(A, P, arg), 2)
    x2, Ux2 = unpack(D().GUM_iDFT(np.asarray(F), np.asarray(arr(UF))), 2)
    close(x, arr(x2), "values vs two steps", rtol=1e-10, scale=A.max())
    d = np.abs(arr(Ux2, got.shape) - got)
    s = np.full(J1.shape, 2.0 / N).dot(B2).dot(np.sqrt(np.diag(U)))
    expect(np.all(d <= 1e-9 * np.outer(s, s)), "covariance differs from the two-step one")


@law("C07", gen.fd(h=gen.sizes(1, 8, 20), x=gen.vspec(), ux=ux_spec(False)), quick=400,
     nontrivial=lambda c: c["h"] >= 2)
def round_trip(c):
    """time -> amplitude/phase -> time restores an even-length signal and its covariance"""
    n = 2 * c["h"]
    x = safe_signal(c["x"], n)
    arg, U = ux_args(c["ux"], n)
    A, P, UAP = unpack(D().Time2AmpPhase(x, arg), 3)
    y, Uy = unpack(D().AmpPhase2Time(np.asarray(A), np.asarray(P), np.asarray(UAP)), 2)
    close(y, x, "restored signal", rtol=1e-9)
    close(Uy, U, "restored covariance", rtol=1e-6)


@law("C07", gen.fd(n=gen.sizes(2, 12, 30), K=st.integers(1, 5), x=gen.vspec(),
                   s=gen.seeds(), sel=st.one_of(st.none(), gen.seeds()),
                   intv=st.integers(0, 3)),
     quick=400, nontrivial=lambda c: c["n"] >= 4,
     classify=lambda c: [f"K={c['K']}", f"selector={c['sel'] is not None}"])
def multi(c):
    """the multi-signal form returns what the single form returns for each signal"""
    n, K = c["n"], c["K"]
    X = np.array([safe_signal(dict(c["x"], s=c["x"]["s"] + 101 * k,
                                   k=c["x"]["k"] if k == 0 else "randn"), n)
                  for k in range(K)])
    r = np.random.RandomState(c["s"])
    v = r.randint(1, 5, K) if c["intv"] == 0 else 0.01 + r.rand(K)
    M = n // 2 + 1
    sel = np.arange(M)
    kw = {}
    if c["sel"] is not None:
        q = np.random.RandomState(c["sel"])
        sel = np.sort(q.permutation(M)[:1 + c["sel"] % M])
        kw["selector"] = sel
    A, P, U = unpack(D().Time2AmpPhase_multi(X, v, **kw), 3)
    L = len(sel)
    A, P, U = arr(A, (K, L), "A"), arr(P, (K, L), "P"), arr(U, (K, 3 * L), "UAP")
    for k in range(K):
        a, p, u = unpack(D().Time2AmpPhase(X[k], float(v[k])), 3)
        a, p, u = arr(a, (M,)), arr(p, (M,)), arr(u, (2 * M, 2 * M))
        close(A[k], a[sel], f"amplitude of signal {k}", rtol=1e-11)
        expect(np.all(ang(P[k], p[sel]) <= 1e-9), f"phase of signal {k}")
        i = np.arange(M)
        close(U[k, :L], u[i, i][sel], "variance of the amplitude", rtol=1e-9)
        close(U[k, L:2 * L], u[i, M + i][sel], "covariance of amplitude and phase", rtol=1e-9,
              scale=np.sqrt(np.max(u[i, i]) * np.max(u[M + i, M + i])))
        close(U[k, 2 * L:], u[M + i, M + i][sel], "variance of the phase", rtol=1e-9)


enlarge(to_amplitude_phase, 24, n=gen.large(40, 500))
enlarge(to_time, 24, M=gen.large(25, 260))
enlarge(multi, 12, n=gen.large(30, 200), K=st.integers(1, 12))
