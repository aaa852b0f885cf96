"""C19: inverse FIR fits with uncertainties."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Discard, arr, close, expect, law, symmetric_psd, unpack
from .c18 import F, case as fcase, freqs, problem, response, target

RULE = "at least 2 coefficients, full column rank and a non-zero uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): agreement with the plain fit, linear propagation of the least-squares map in a band of 8 standard errors, degenerate covariances, seed metamorphic relation"


def case():
    return gen.fd(c=fcase(), U=gen.cspec(("ident", "diag", "full", "rank1", "rank2", "diagz",
                                          "spiky", "ar")),
                  rel=st.sampled_from([1e-3, 1e-4, 3e-3]), ri=st.booleans(),
                  seed=gen.seeds(), wt=st.booleans(), tol=st.integers(0, 3))


def cls(k):
    return [f"U={k['U']['k']}", f"response={k['c']['hk']}", "weights" if k["wt"] else "no weights"]


def nt(k):
    return k["c"]["N"] >= 1


def setup(k):
    c = k["c"]
    f = freqs(c)
    Fs, N, tau = c["Fs"], c["N"], c["tau"]
    H = response(c, f).astype(complex)
    M = len(f)
    om = 2 * np.pi * np.asarray(f, float) / Fs
    E = np.exp(-1j * np.outer(om, np.arange(N + 1)))
    w = np.ones(2 * M)
    if k["wt"]:
        w = np.random.RandomState(c["w"]).uniform(0.3, 3, 2 * M)
    X = np.vstack([E.real, E.imag]) * w[:, None]
    # scale: standard uncertainties relative to the smallest |H|
    U = gen.cov(dict(k["U"], a=1.0), 2 * M)
    U = U / max(np.max(np.diag(U)), 1e-300) * (k["rel"] * np.min(np.abs(H))) ** 2
    # Jacobian of the delayed reciprocal with respect to real and imaginary parts
    G = -np.exp(-1j * om * tau) / H ** 2
    J = np.zeros((2 * M, 2 * M))
    i = np.arange(M)
    J[i, i] = G.real
    J[i, M + i] = -G.imag
    J[M + i, i] = G.imag
    J[M + i, M + i] = G.real
    return f, Fs, N, tau, H, U, X, w, J


def rank_ok(X):
    s = np.linalg.svd(X, compute_uv=False)
    return len(s) == X.shape[1] and s[-1] > 1e-4 * s[0]


def band(C, C_ref, runs, what, P, w, H, rel):
    """8 standard errors plus the second-order part of the reciprocal, whose standard
    deviation is below 3 rel^2 / |H| per frequency"""
    v = np.diag(C_ref)
    se = np.sqrt((np.outer(v, v) + C_ref ** 2) / runs)
    d = np.abs(C - C_ref)
    s1 = np.sqrt(v)
    s2 = (np.abs(P) * w).dot(np.tile(3 * rel ** 2 / np.abs(H), 2))
    nonlin = np.outer(s1, s2) + np.outer(s2, s1) + np.outer(s2, s2)
    bad = d > 8 * se + nonlin + 0.005 * np.outer(s1, s1) + 1e-9 * np.max(v)
    expect(not np.any(bad), f"{what} differs from the linear propagation: "
           f"{C[bad][:1]} instead of {C_ref[bad][:1]}")


@law("C19", case(), quick=260, thorough=4000, nontrivial=nt, classify=cls)
def covariance_form_propagates_linearly(k):
    """coefficients are those of the plain weighted fit for every covariance; their
    covariance is that of the least-squares map; seeds reproduce"""
    f, Fs, N, tau, H, U, X, w, J = setup(k)
    if not rank_ok(X):
        raise Discard
    M = len(f)
    kw = dict(wt=w) if k["wt"] else {}
    if k["tol"] == 0:
        kw["trunc_svd_tol"] = 1e-9
    Hin = np.r_[H.real, H.imag] if k["ri"] else H
    np.random.seed(k["seed"])
    b, Ub = unpack(F().invLSFIR_unc(Hin, U, N, tau, f, Fs, verbose=False, **kw), 2)
    P = np.linalg.pinv(X)
    T = target(H, f, Fs, tau, True)
    want = P.dot(w * np.r_[T.real, T.imag])
    close(b, want, "coefficients", rtol=1e-7, scale=np.max(np.abs(T)))
    Ub = symmetric_psd(Ub, "covariance of the coefficients", n=N + 1)
    PJ = (P * w).dot(J)
    band(Ub, PJ.dot(U).dot(PJ.T), 10000, "covariance of the coefficients",
         P, w, H, k["rel"])
    np.random.seed(k["seed"])
    b2, Ub2 = unpack(F().invLSFIR_unc(Hin, U, N, tau, f, Fs, verbose=False, **kw), 2)
    expect(np.array_equal(arr(b), arr(b2)) and np.array_equal(Ub, arr(Ub2)),
           "equal seeds give different results")
    if not k["wt"]:
        plain = F().invLSFIR(H, N, tau, f, Fs)
        close(b, arr(plain), "coefficients and plain fit", rtol=1e-7, scale=np.max(np.abs(T)))


@law("C19", case(), quick=160, nontrivial=nt, classify=cls)
def no_uncertainty_and_truncation(k):
    """no uncertainty: zero covariance; singular values below the tolerance are ignored"""
    f, Fs, N, tau, H, U, X, w, J = setup(k)
    kw = dict(wt=w) if k["wt"] else {}
    s = np.linalg.svd(X, compute_uv=False)
    if not rank_ok(X):
        raise Discard
    r = np.random.RandomState(k["seed"])
    j = r.randint(1, len(s) + 1)
    if j < len(s) and s[j - 1] > 1.01 * s[j]:
        tol = float(s[j] * 1.004)  # keeps the j largest
        kw["trunc_svd_tol"] = tol
    else:
        j = len(s)
    b, Ub = unpack(F().invLSFIR_unc(H, np.zeros_like(U), N, tau, f, Fs, verbose=False, **kw), 2)
    u, s, vt = np.linalg.svd(X, full_matrices=False)
    P = (vt[:j].T / s[:j]).dot(u[:, :j].T)
    T = target(H, f, Fs, tau, True)
    want = P.dot(w * np.r_[T.real, T.imag])
    close(b, want, "coefficients", rtol=1e-7, scale=np.max(np.abs(T)))
    expect(np.max(np.abs(arr(Ub, (N + 1, N + 1), "covariance"))) <= 1e-18 *
           np.max(np.abs(P)) ** 2 * np.max(np.abs(w)) ** 2 * np.max(np.abs(T)) ** 2,
           "covariance is not zero")
    if j < len(s):
        np.random.seed(1)
        _, Ub = unpack(F().invLSFIR_unc(H, U, N, tau, f, Fs, verbose=False, **kw), 2)
        PJ = (P * w).dot(J)
        band(arr(Ub, (N + 1, N + 1), "covariance"), PJ.dot(U).dot(PJ.T), 10000,
             "covariance with truncation", P, w, H, k["rel"])


@law("C19", case(), quick=16, thorough=160, nontrivial=nt, classify=cls)
def direct_form_agrees(k):
    """direct Monte Carlo: mean and covariance of the fits in the band of the linear ones;
    without uncertainty the plain fit; seeds reproduce"""
    k = dict(k, wt=False, rel=1e-3)
    k["c"] = dict(k["c"], N=min(k["c"]["N"], 4), M=min(k["c"]["M"], 8))
    f, Fs, N, tau, H, U, X, w, J = setup(k)
    if not rank_ok(X):
        raise Discard
    if k["tol"] == 0:
        U = np.zeros_like(U)
    np.random.seed(k["seed"])
    b, Ub = unpack(F().invLSFIR_uncMC(H, U, N, tau, f, Fs, verbose=False), 2)
    P = np.linalg.pinv(X)
    T = target(H, f, Fs, tau, True)
    want = P.dot(np.r_[T.real, T.imag])
    PJ = P.dot(J)
    C = PJ.dot(U).dot(PJ.T)
    m = np.max(np.abs(T))
    if N == 0:
        Ub = np.reshape(arr(Ub), (1, 1))
    Ub = symmetric_psd(Ub, "covariance of the coefficients", n=N + 1)
    b = arr(b, (N + 1,), "coefficients")
    if k["tol"] == 0:
        close(b, want, "coefficients", rtol=1e-8, scale=m)
        expect(np.max(np.abs(Ub)) <= 1e-18 * np.max(np.abs(P)) ** 2 * m ** 2,
               "covariance is not zero")
        return
    bias = 20 * k["rel"] ** 2 * m * np.max(np.sum(np.abs(P), axis=1))
    expect(np.all(np.abs(b - want) <= 8 * np.sqrt(np.diag(C) / 10000) + bias),
           "coefficients differ from the plain fit")
    band(Ub, C, 10000, "covariance of the coefficients",
         P, w, H, k["rel"])
