"""C06: real/imaginary <-> amplitude/phase."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, close, close_cov, enlarge, expect, law, unpack
from .c04 import D

RULE = "at least 2 lines and a non-zero uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis) against the analytic Jacobian and round trips"


def polar(seed, M, special):
    r = np.random.RandomState(seed)
    A = np.exp(r.uniform(-2, 2, M)) * 10.0 ** r.randint(-1, 2)
    P = r.uniform(-np.pi, np.pi, M)
    if special:
        P = np.where(r.rand(M) < 0.5, r.choice([0.0, np.pi / 2, -np.pi / 2, np.pi, 0.3], M), P)
    return A, P


def cart(A, P):
    return np.r_[A * np.cos(P), A * np.sin(P)]


def j_to_polar(F):
    M = len(F) // 2
    R, I = F[:M], F[M:]
    A = np.hypot(R, I)
    J = np.zeros((2 * M, 2 * M))
    i = np.arange(M)
    J[i, i] = R / A
    J[i, M + i] = I / A
    J[M + i, i] = -I / A ** 2
    J[M + i, M + i] = R / A ** 2
    B = np.zeros_like(J)
    B[i, i] = B[i, M + i] = 1
    B[M + i, i] = B[M + i, M + i] = 1 / A
    return J, B


def j_to_cart(A, P):
    M = len(A)
    J = np.zeros((2 * M, 2 * M))
    i = np.arange(M)
    J[i, i] = np.cos(P)
    J[i, M + i] = -A * np.sin(P)
    J[M + i, i] = np.sin(P)
    J[M + i, M + i] = A * np.cos(P)
    B = np.zeros_like(J)
    B[i, i] = B[M + i, i] = 1
    B[i, M + i] = B[M + i, M + i] = A
    return J, B


def case():
    return gen.fd(M=gen.sizes(1, 8, 25), s=gen.seeds(), special=st.booleans(),
                  form=st.sampled_from(["mat", "mat", "vec", "dia"]), u=gen.cspec(wide=True),
                  v=gen.uspec(wide=True), sparse=st.booleans(),
                  ret=st.sampled_from(["separate", "AP"]))


def nt(c):
    return c["M"] >= 2


def cls(c):
    return [f"form={c['form']}", f"keep_sparse={c['sparse']}", f"ret={c['ret']}"]


def cov_of(c, M):
    if c["form"] == "vec":
        v = gen.uvec(c["v"], 2 * M) ** 2
        return v, np.diag(v)
    if c["form"] == "dia":
        # only the diagonals of the four blocks
        r = np.random.RandomState(c["u"]["s"] + 3)
        U = np.zeros((2 * M, 2 * M))
        i = np.arange(M)
        a, p = 0.1 + r.rand(M), 0.1 + r.rand(M)
        rho = r.uniform(-1, 1, M)
        U[i, i], U[M + i, M + i] = a, p
        U[i, M + i] = U[M + i, i] = rho * np.sqrt(a * p)
        return U * c["u"]["a"] ** 2, U * c["u"]["a"] ** 2
    U = gen.cov(c["u"], 2 * M)
    return U, U.copy()


def ang(a, b):
    return np.abs((np.asarray(a) - np.asarray(b) + np.pi) % (2 * np.pi) - np.pi)


@law("C06", case(), quick=1200, nontrivial=nt, classify=cls)
def to_polar(c):
    """A = |F|, P = arg F, covariance J U J^T"""
    M = c["M"]
    A0, P0 = polar(c["s"], M, c["special"])
    F = cart(A0, P0)
    arg, U = cov_of(c, M)
    kw = dict(return_type=c["ret"])
    if c["form"] == "vec":
        kw["keep_sparse"] = c["sparse"]
    out = unpack(D().DFT2AmpPhase(F, arg, **kw), 3 if c["ret"] == "separate" else 2)
    if c["ret"] == "separate":
        A, P = arr(out[0], (M,), "amplitude"), arr(out[1], (M,), "phase")
    else:
        AP = arr(out[0], (2 * M,), "amplitude and phase")
        A, P = AP[:M], AP[M:]
    expect(np.all(np.abs(A - A0) <= 1e-12 * A0), f"amplitude {A} instead of {A0}")
    expect(np.all(ang(P, P0) <= 1e-12 * 10), f"phase {P} instead of {P0}")
    expect(np.all(np.abs(P) <= np.pi + 1e-15), "phase outside of [-pi, pi]")
    J, B = j_to_polar(F)
    close_cov(out[-1], J, U, "covariance of amplitude and phase", rtol=1e-11, bound=B)


@law("C06", case(), quick=1200, nontrivial=nt, classify=cls)
def to_cartesian(c):
    """R = A cos P, I = A sin P, covariance J U J^T; dense, vector and sparse input"""
    M = c["M"]
    A, P = polar(c["s"], M, c["special"])
    arg, U = cov_of(c, M)
    if c["form"] == "dia":
        from scipy import sparse
        i = np.arange(M)
        arg = sparse.diags([np.diag(U), U[i, M + i], U[i, M + i]], [0, M, -M])
    kw = {} if c["form"] == "mat" else dict(keep_sparse=c["sparse"])
    F, UF = unpack(D().AmpPhase2DFT(A, P, arg, **kw), 2)
    close(F[:M], A * np.cos(P), "real parts", rtol=1e-13, scale=1e-300)
    close(F[M:], A * np.sin(P), "imaginary parts", rtol=1e-13, scale=1e-300)
    J, B = j_to_cart(A, P)
    close_cov(UF, J, U, "covariance of real and imaginary part", rtol=1e-11, bound=B)


@law("C06", case(), quick=600, nontrivial=nt, classify=cls)
def round_trips(c):
    """there and back again restores values and covariance"""
    M = c["M"]
    A, P = polar(c["s"], M, c["special"])
    F = cart(A, P)
    arg, U = cov_of(c, M)
    keep = c["form"] == "vec" and c["sparse"]
    a, p, UAP = unpack(D().DFT2AmpPhase(F, arg, keep_sparse=keep), 3)
    F2, UF2 = unpack(D().AmpPhase2DFT(np.asarray(a), np.asarray(p), UAP), 2)
    close(F2, F, "restored real and imaginary parts", rtol=1e-11)
    s = np.sqrt(np.diag(U))
    i = np.arange(M)
    loc = np.r_[s[:M] + s[M:], s[:M] + s[M:]]
    d = np.abs(arr(UF2, U.shape, "restored covariance") - U)
    expect(np.all(d <= 1e-9 * np.outer(loc, loc)), f"restored covariance off by {d.max():.3g}")
    F3, UF3 = unpack(D().AmpPhase2DFT(A, P, arg), 2)
    a, p, U3 = unpack(D().DFT2AmpPhase(np.asarray(F3), np.asarray(arr(UF3))), 3)
    expect(np.all(np.abs(arr(a, (M,)) - A) <= 1e-11 * A), "restored amplitudes")
    expect(np.all(ang(arr(p, (M,)), P) <= 1e-11), "restored phases")
    sa = s[:M] + A * s[M:]
    loc = np.r_[sa, sa / A]
    d = np.abs(arr(U3, U.shape, "restored covariance") - U)
    expect(np.all(d <= 1e-9 * np.outer(loc, loc)), f"restored covariance off by {d.max():.3g}")


@law("C06", case(), quick=400, nontrivial=nt, classify=cls)
def permutation(c):
    """permuting the frequencies permutes the results"""
    M = c["M"]
    A, P = polar(c["s"], M, c["special"])
    arg, U = cov_of(c, M)
    q = np.random.RandomState(c["s"] + 1).permutation(M)
    qq = np.r_[q, M + q]
    argq = arg[qq] if arg.ndim == 1 else arg[np.ix_(qq, qq)]
    F1, U1 = unpack(D().AmpPhase2DFT(A, P, arg), 2)
    F2, U2 = unpack(D().AmpPhase2DFT(A[q], P[q], argq), 2)
    close(F2, arr(F1)[qq], "permuted real and imaginary parts", rtol=1e-13)
    close(U2, arr(U1)[np.ix_(qq, qq)], "permuted covariance", rtol=1e-12)
    F = cart(A, P)
    a1, p1, V1 = unpack(D().DFT2AmpPhase(F, arg), 3)
    a2, p2, V2 = unpack(D().DFT2AmpPhase(F[qq], argq), 3)
    close(a2, arr(a1)[q], "permuted amplitudes", rtol=1e-13)
    close(p2, arr(p1)[q], "permuted phases", rtol=1e-13)
    close(V2, arr(V1)[np.ix_(qq, qq)], "permuted covariance", rtol=1e-12)


@law("C06", case(), quick=300, nontrivial=nt, classify=cls)
def forms_agree(c):
    """a vector of variances is the diagonal matrix; sparse output is the dense one"""
    M = c["M"]
    A, P = polar(c["s"], M, c["special"])
    v = gen.uvec(c["v"], 2 * M) ** 2
    F = cart(A, P)
    a, p, U = unpack(D().DFT2AmpPhase(F, v), 3)
    a2, p2, U2 = unpack(D().DFT2AmpPhase(F, np.diag(v)), 3)
    a3, p3, U3 = unpack(D().DFT2AmpPhase(F, v, keep_sparse=True), 3)
    close(U2, arr(U), "matrix vs vector", rtol=1e-12, scale=1e-300)
    close(U3, arr(U), "sparse vs dense", rtol=1e-14)
    for x, y in ((a, a2), (a, a3), (p, p2), (p, p3)):
        close(x, arr(y), "values", rtol=1e-14)
    G, V = unpack(D().AmpPhase2DFT(A, P, v), 2)
    G2, V2 = unpack(D().AmpPhase2DFT(A, P, np.diag(v)), 2)
    G3, V3 = unpack(D().AmpPhase2DFT(A, P, v, keep_sparse=True), 2)
    close(V2, arr(V), "matrix vs vector", rtol=1e-12)
    close(V3, arr(V), "sparse vs dense", rtol=1e-14)
    close(G2, arr(G), "values", rtol=1e-14)
    close(G3, arr(G), "values", rtol=1e-14)


enlarge(to_polar, 24, M=gen.large(25, 260))
enlarge(to_cartesian, 24, M=gen.large(25, 260))
enlarge(round_trips, 12, M=gen.large(25, 150))
enlarge(forms_agree, 12, M=gen.large(25, 150))
