"""C18: least-squares FIR fits."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Discard, arr, close, enlarge, expect, law, unpack

RULE = "at least 2 coefficients and more equations than coefficients; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): optimality against an independently assembled weighted least-squares problem, recovery round trips and weight metamorphic relations"


def F():
    from PyDynamic.model_estimation import fit_filter

    return fit_filter


def case():
    return gen.fd(N=st.integers(0, 7), M=gen.sizes(1, 10, 30), f=gen.seeds(),
                  fk=st.sampled_from(["equi", "rand", "rand", "with0", "withnyq"]),
                  Fs=st.sampled_from([1.0, 2.0, 1000.0, 48000, 1e-3, 2.5e6]), amp=st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e5]),
                  h=gen.seeds(), hk=st.sampled_from(["random", "fir", "system", "real"]),
                  tau=st.sampled_from([0, 0, 1, 3, 7, 2.5, -1]),
                  wt=st.sampled_from(["none", "none", "vec", "vec", "mat", "full", "zeros"]),
                  w=gen.seeds(), intf=st.integers(0, 5))


def freqs(c):
    r = np.random.RandomState(c["f"])
    M, k = c["M"] + c["N"] // 2 + 1, c["fk"]
    if k == "equi":
        f = np.linspace(0.02, 0.47, M)
    else:
        f = np.sort((np.arange(M) + r.uniform(0.1, 0.9, M)) / M * 0.5)
        if k == "with0":
            f[0] = 0.0
        if k == "withnyq":
            f[-1] = 0.5
    f = f * c["Fs"]
    if c["intf"] == 0 and c["Fs"] > 500:
        f = np.unique(np.round(f).astype(int))
    return f


def response(c, f):
    return c.get("amp", 1.0) * unit_response(c, f)


def unit_response(c, f):
    r = np.random.RandomState(c["h"] + 1)
    M, k = len(f), c["hk"]
    om = 2 * np.pi * f / c["Fs"]
    if k == "random":
        return r.uniform(0.3, 3, M) * np.exp(1j * r.uniform(-np.pi, np.pi, M))
    if k == "real":
        return r.uniform(0.3, 3, M)
    if k == "fir":
        g = r.randn(3) * 0.25
        g[0] = 1.0 + r.rand()
        return sum(g[j] * np.exp(-1j * om * j) for j in range(3))
    d, w0 = r.uniform(0.05, 0.5), r.uniform(0.5, 2.5)
    return w0 ** 2 / (w0 ** 2 + 2j * d * w0 * om - om ** 2) * r.uniform(0.5, 2)


def weights(c, M):
    """argument and the matrix multiplying the complex residuals"""
    r = np.random.RandomState(c["w"] + 2)
    k = c["wt"]
    v = r.uniform(0.2, 3, M)
    if k == "none":
        return None, np.eye(M)
    if k == "zeros":
        v[r.rand(M) < 0.2] = 0.0
        return v, np.diag(v)
    if k == "vec":
        return v, np.diag(v)
    if k == "mat":
        return np.diag(v), np.diag(v)
    A = np.eye(M) * 2 + 0.3 * r.randn(M, M) / np.sqrt(M)
    return A, A.copy()


def problem(f, Fs, N, target, W):
    """stacked real system A b = t"""
    om = 2 * np.pi * np.asarray(f, float) / Fs
    E = np.array([[np.exp(-1j * o * k) for k in range(N + 1)] for o in om])
    A = W.dot(E)
    t = W.dot(target)
    return np.vstack([A.real, A.imag]), np.r_[t.real, t.imag]


def target(H, f, Fs, tau, inv):
    om = 2 * np.pi * np.asarray(f, float) / Fs
    return np.exp(-1j * om * tau) * (1.0 / H if inv else H)


def nt(c):
    return c["N"] >= 1


def cls(c):
    return [f"weights={c['wt']}", f"response={c['hk']}", "delay" if c["tau"] else "no delay"]


def check_optimal(b, A, t, what):
    q = A.shape[1]
    b = arr(b, (q,), what)
    s = np.linalg.svd(A, compute_uv=False)
    if len(s) < q or s[-1] <= 1e-7 * s[0]:
        # not unique: only the residual counts
        ref = np.linalg.lstsq(A, t, rcond=None)[0]
        c0 = np.linalg.norm(A.dot(ref) - t)
        expect(np.linalg.norm(A.dot(b) - t) <= c0 + 1e-7 * np.linalg.norm(t),
               what + ": not a minimum")
        return b
    Q, R = np.linalg.qr(A)
    ref = np.linalg.solve(R, Q.T.dot(t))
    cond = s[0] / s[-1]
    close(b, ref, what, rtol=1e-12 * cond ** 2 + 1e-11, atol=1e-12 * cond * np.linalg.norm(t) / s[0])
    return b


@law("C18", case(), quick=1600, nontrivial=nt, classify=cls)
def fits_are_optimal(c):
    """coefficients of both fits minimise the weighted squared distance to the target"""
    f = freqs(c)
    Fs, N, tau = c["Fs"], c["N"], c["tau"]
    H = response(c, f)
    for inv, fn in ((False, F().LSFIR), (True, F().invLSFIR)):
        wt, W = weights(c, len(f))
        b = fn(H, N, tau, f, Fs) if wt is None else fn(H, N, tau, f, Fs, Wt=wt)
        A, t = problem(f, Fs, N, target(H, f, Fs, tau, inv), W)
        check_optimal(b, A, t, "inverse fit" if inv else "fit")


@law("C18", case(), quick=700, nontrivial=nt, classify=cls)
def filters_are_recovered(c):
    """a response generated by an FIR filter of at most that order (delayed by tau) or the
    reciprocal of one is recovered, with any weights"""
    f = freqs(c)
    Fs, N = c["Fs"], c["N"]
    r = np.random.RandomState(c["h"])
    tau = int(r.randint(0, N + 1))
    g = r.randn(N + 1 - tau) * 0.3
    g[0] = 2.0
    want = np.r_[np.zeros(tau), g]
    om = 2 * np.pi * f / Fs
    G = sum(v * np.exp(-1j * om * k) for k, v in enumerate(g))
    wt, W = weights(c, len(f))
    if c["wt"] == "zeros":
        wt, W = None, np.eye(len(f))
    A, _ = problem(f, Fs, N, G, W)
    s = np.linalg.svd(A, compute_uv=False)
    if len(s) < N + 1 or s[-1] < 1e-5 * s[0] or np.min(np.abs(G)) < 1e-2:
        raise Discard
    kw = {} if wt is None else dict(Wt=wt)
    close(F().LSFIR(G, N, tau, f, Fs, **kw), want, "recovered filter", rtol=1e-8)
    close(F().invLSFIR(1.0 / G, N, tau, f, Fs, **kw), want, "recovered inverse filter",
          rtol=1e-8)


@law("C18", case(), quick=700, nontrivial=nt, classify=cls)
def weight_forms_agree(c):
    """vector and diagonal matrix, scaled weights, zero weight and removed frequency, unit
    weights and none give the same fit"""
    f = freqs(c)
    Fs, N, tau = c["Fs"], c["N"], c["tau"]
    H = response(c, f)
    M = len(f)
    r = np.random.RandomState(c["w"])
    w = r.uniform(0.3, 3, M)
    A, _ = problem(f, Fs, N, H, np.diag(w))
    s = np.linalg.svd(A, compute_uv=False)
    if len(s) < N + 1 or s[-1] < 1e-4 * s[0]:
        raise Discard
    for fn in (F().LSFIR, F().invLSFIR):
        b = arr(fn(H, N, tau, f, Fs, Wt=w), (N + 1,), "coefficients")
        sc = np.max(np.abs(b)) + np.max(np.abs(H if fn is F().LSFIR else 1 / H))
        close(fn(H, N, tau, f, Fs, Wt=np.diag(w)), b, "diagonal weight matrix", rtol=1e-9,
              scale=sc)
        close(fn(H, N, tau, f, Fs, Wt=w * 7.5), b, "scaled weights", rtol=1e-7, scale=sc)
        b1 = arr(fn(H, N, tau, f, Fs), (N + 1,), "coefficients")
        close(fn(H, N, tau, f, Fs, Wt=np.ones(M)), b1, "unit weights", rtol=1e-8, scale=sc)
        p = r.permutation(M)
        close(fn(H[p], N, tau, f[p], Fs, Wt=w[p]), b, "permuted frequencies", rtol=1e-7,
              scale=sc)
        k = r.randint(0, M)
        keep = np.arange(M) != k
        Ak, _ = problem(f[keep], Fs, N, H[keep], np.diag(w[keep]))
        sk = np.linalg.svd(Ak, compute_uv=False)
        if len(sk) == N + 1 and sk[-1] > 1e-4 * sk[0]:
            w0 = w.copy()
            w0[k] = 0.0
            H2 = H.copy()
            H2[k] *= -3
            close(fn(H2, N, tau, f, Fs, Wt=w0),
                  arr(fn(H[keep], N, tau, f[keep], Fs, Wt=w[keep])), "zero weight", rtol=1e-7,
                  scale=sc)


@law("C18", case(), quick=160, nontrivial=nt, classify=cls)
def uncertain_fit_is_optimal(c):
    """the inverse fit with uncertainties and weights for real and imaginary parts"""
    f = freqs(c)
    Fs, N, tau = c["Fs"], c["N"], c["tau"]
    H = response(c, f).astype(complex)
    M = len(f)
    r = np.random.RandomState(c["w"])
    kw = {}
    w = np.ones(2 * M)
    if c["wt"] != "none":
        w = r.uniform(0.3, 3, 2 * M)
        if c["wt"] == "zeros":
            w[r.randint(0, 2 * M)] = 0.0
        kw["wt"] = w
    om = 2 * np.pi * f / Fs
    E = np.exp(-1j * np.outer(om, np.arange(N + 1)))
    A = np.vstack([E.real, E.imag]) * w[:, None]
    T = target(H, f, Fs, tau, True)
    t = np.r_[T.real, T.imag] * w
    s = np.linalg.svd(A, compute_uv=False)
    if len(s) < N + 1 or s[-1] < 1e-5 * s[0]:
        raise Discard
    U = np.diag(1e-8 * r.uniform(0.1, 1, 2 * M)) * np.min(np.abs(H)) ** 2
    Hin = H if r.rand() < 0.5 or M == 2 * M else np.r_[H.real, H.imag]
    b, Ub = unpack(F().invLSFIR_unc(Hin, U, N, tau, f, Fs, verbose=False, **kw), 2)
    check_optimal(b, A, t, "inverse fit with uncertainties")
    arr(Ub, (N + 1, N + 1), "covariance")


enlarge(fits_are_optimal, 24, M=gen.large(30, 500), N=st.integers(0, 60))
enlarge(filters_are_recovered, 24, M=gen.large(40, 300), N=st.integers(4, 40))
