"""C21: fit of second-order models."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, enlarge, expect, law, raises, symmetric_psd, unpack

RULE = "at least 3 frequencies and (uncertainty laws) a non-zero response uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): parameters generate the response (round trip), covariance against an independent weighted least-squares model with numerical derivatives (exact shape for rank-one uncertainties, bands of 8 standard errors otherwise), metamorphic relations in gain and time unit"


def F():
    from PyDynamic.model_estimation import fit_transfer

    return fit_transfer


def case():
    return gen.fd(S=st.sampled_from([1.0, 0.124, 25.0, 3e-4, 2e5]), d=st.sampled_from([0.01, 0.05, 0.3, 0.7, 1.2]),
                  f0=st.sampled_from([1.0, 12.0, 500.0, 36e3, 1e5, 1e-3, 3e6]), s=gen.seeds(),
                  M=gen.sizes(3, 8, 16, 30), grid=st.sampled_from(["rand", "lin", "below", "zero", "log",
                                                                   "unsorted"]),
                  w=st.sampled_from(["none", "none", "array", "diag", "cov"]),
                  U=gen.cspec(("ident", "diag", "full", "rank1", "ar", "spiky")),
                  rel=st.sampled_from([1e-3, 1e-4, 1e-5]), vec=st.booleans(),
                  sc=st.sampled_from([None, None, 1.0, 1e-4, 1e-2]))


def H_ref(p, f):
    S, d, f0 = p
    return S * f0 ** 2 / (f0 ** 2 - f ** 2 + 2j * d * f0 * f)


def build(c):
    r = np.random.RandomState(c["s"])
    p = np.array([c["S"] * r.uniform(0.5, 2), c["d"] * r.uniform(0.8, 1.2), c["f0"] * r.uniform(0.7, 1.4)])
    M, g = c["M"], c["grid"]
    f = np.sort(r.uniform(0.1, 2.5, M))
    if g == "lin":
        f = np.linspace(0.2, r.uniform(1.1, 3), M)
    elif g == "below":
        f = np.linspace(0.15, 0.8, M)
    elif g == "zero":
        f = np.r_[0.0, np.sort(r.uniform(0.2, 2, M - 1))]
    elif g == "log":
        f = np.logspace(-1, 0.4, M)
    elif g == "unsorted":
        f = r.permutation(np.linspace(0.2, 2.2, M))
    f = f * p[2]
    return p, f, H_ref(p, f)


def ri(H):
    return np.r_[H.real, H.imag]


def weights(c, M):
    return np.random.RandomState(c["s"] + 3).uniform(0.3, 3, 2 * M)


def covariance(c, H):
    """covariance of Re and Im; largest standard uncertainty rel * min|H| (times the
    damping, so that the reciprocal and the parameters react linearly)"""
    n = 2 * len(H)
    U = gen.cov(dict(c["U"], a=1.0), n)
    U = U / np.max(np.diag(U)) * (c["rel"] * np.min(np.abs(H)) * min(1, c["d"] * 3)) ** 2
    return np.diag(np.diag(U)) if c["vec"] else U


def recip_jac(H):
    """derivative of (Re, Im) of 1/H with respect to (Re, Im) of H"""
    G = -1 / H ** 2
    return np.block([[np.diag(G.real), -np.diag(G.imag)], [np.diag(G.imag), np.diag(G.real)]])


def fit_matrix(f, W, scale):
    """derivative of the linear parameters with respect to Re/Im of 1/H, weights W^-1;
    frequencies in units of ``scale``"""
    om = f / scale
    E = np.c_[np.ones(len(f)), 2j * om, -om ** 2]
    X = np.vstack([E.real, E.imag])
    L = np.linalg.inv(np.linalg.cholesky(W))
    return np.linalg.pinv(L.dot(X)).dot(L)


def pars_of(mu, scale):
    return np.array([1 / mu[0], mu[1] / np.sqrt(mu[0] * mu[2]), np.sqrt(mu[0] / mu[2]) * scale])


def pars_jac(p, scale):
    """d(S, delta, f0)/d mu at the model parameters, analytically from the definition"""
    S, d, f0 = p
    m0, m2 = 1 / S, scale ** 2 / (S * f0 ** 2)
    m1 = d * scale / (S * f0)
    q = np.sqrt(m0 * m2)
    return np.array([[-S ** 2, 0, 0],
                     [-m1 * m2 / (2 * q ** 3), 1 / q, -m1 * m0 / (2 * q ** 3)],
                     [f0 / (2 * m0), 0, -f0 / (2 * m2)]])


def model(c, p, f, H, U):
    """sensitivity of the parameters to Re/Im of H"""
    G = recip_jac(H)
    n = 2 * len(H)
    if c["w"] == "array":
        # both readings of weights (factor or divisor) are decided by the fit itself
        W = None
    elif c["w"] == "diag":
        W = np.diag(np.diag(G.dot(U).dot(G.T)))
    elif c["w"] == "cov":
        W = G.dot(U).dot(G.T)
        W = W / np.max(W)
    else:
        W = np.eye(n)
    if W is None:
        return numeric_jac(c, f, H)
    W = W / np.max(np.diag(W))
    return pars_jac(p, p[2]).dot(fit_matrix(f, W, p[2])).dot(G)


def numeric_jac(c, f, H):
    x = ri(H)
    h = 1e-6 * np.min(np.abs(H)) * min(1, c["d"])
    J = np.zeros((3, len(x)))
    w = weights(c, len(f))
    for i in range(len(x)):
        e = np.zeros(len(x))
        e[i] = h
        a = arr(F().fit_som(f, x + e, weighting=w), (3,))
        b = arr(F().fit_som(f, x - e, weighting=w), (3,))
        J[:, i] = (a - b) / (2 * h)
    return J


def nt(c):
    return c["M"] >= 3


def cls(c):
    return ["grid=" + c["grid"], "weighting=" + c["w"], "U=" + c["U"]["k"]]


def close_pars(got, p, rtol, what="parameters"):
    got = arr(got, (3,), what)
    for name, g, w in zip(("gain", "damping", "resonance"), got, p):
        tol = rtol * max(abs(w), 1.0 if name == "damping" else 0)
        expect(abs(g - w) <= tol, f"{what}: {name} {g!r} instead of {w!r}")
    return got


@law("C21", case(), quick=900, nontrivial=nt, classify=cls)
def exact_response_gives_back_the_parameters(c):
    """without uncertainties: any grid, weights and scaling of the design matrix; other
    gain and time unit scale the parameters"""
    p, f, H = build(c)
    kw = {}
    if c["w"] == "array":
        kw["weighting"] = weights(c, len(f))
    if c["sc"] is not None:
        kw["scaling"] = c["sc"] if c["sc"] != 1.0 else 1.0 / p[2]
    H0 = ri(H)
    Hin = H0.copy()
    close_pars(F().fit_som(f, Hin, **kw), p, 1e-6)
    expect(np.array_equal(Hin, H0), "response was changed")
    close_pars(F().fit_som(f, H0 * 3.0, **kw), p * [3, 1, 1], 1e-6, "larger gain")
    close_pars(F().fit_som(f * 8.0, H0, **kw), p * [1, 1, 8], 1e-6, "other unit of time")
    r = np.random.RandomState(c["s"])
    q = r.permutation(len(f))
    if c["w"] != "array":
        close_pars(F().fit_som(f[q], np.r_[H0[: len(f)][q], H0[len(f):][q]], **kw), p, 1e-6, "permuted frequencies")


@law("C21", case(), quick=500, nontrivial=nt, classify=cls)
def disturbed_response_gives_the_least_squares_parameters(c):
    """unweighted: least squares of 1/H (independent solution), as with uncertainties"""
    p, f, H = build(c)
    r = np.random.RandomState(c["s"] + 1)
    H = H * (1 + 0.02 * min(1, c["d"]) * (r.randn(len(f)) + 1j * r.randn(len(f))))
    A = fit_matrix(f, np.eye(2 * len(f)), p[2])
    mu = A.dot(ri(1 / H))
    want = pars_of(mu, p[2])
    close_pars(F().fit_som(f, ri(H)), want, 1e-5)
    U = np.full(2 * len(f), 1e-5 * np.min(np.abs(H)) * c["d"])
    got, C = unpack(F().fit_som(f, ri(H), UH=U), 2)
    close_pars(got, want, 1e-5, "parameters with uncertainties")


def kwargs(c, U, f):
    kw = {"UH": np.sqrt(np.diag(U)) if c["vec"] else U}
    if c["w"] == "array":
        kw["weighting"] = weights(c, len(f))
    elif c["w"] != "none":
        kw["weighting"] = c["w"]
    if c["sc"] is not None:
        kw["scaling"] = c["sc"]
    return kw


def full_rank(c):
    if c["w"] in ("diag", "cov") and c["U"]["k"] in ("rank1", "ar", "spiky"):
        return dict(c, U=dict(c["U"], k="full"))
    return c


def band(C, want, rel, what):
    s = np.sqrt(np.diag(want))
    tol = rel * np.outer(s, s)
    bad = np.abs(C - want) > tol
    if np.any(bad):
        i, j = np.argwhere(bad)[0]
        expect(False, f"{what}: entry ({i},{j}) is {C[i, j]:.5g}, expected {want[i, j]:.5g} (band {tol[i, j]:.2g})")


@law("C21", case(), quick=350, nontrivial=nt, classify=cls)
def linear_covariance_is_the_propagated_one(c):
    """parameters recovered for every weighting; covariance = J UH J^T (the reciprocal is
    propagated by 10000 draws, so in a band)"""
    c = full_rank(c)
    p, f, H = build(c)
    U = covariance(c, H)
    np.random.seed(c["s"])
    got, C = unpack(F().fit_som(f, ri(H), **kwargs(c, U, f)), 2)
    close_pars(got, p, 1e-5)
    C = symmetric_psd(C, "covariance", n=3, tol=1e-6)
    J = model(c, p, f, H, U)
    want = J.dot(U).dot(J.T)
    band(C, want, 8 * np.sqrt(2 / 1e4) + 30 * c["rel"] + (0.08 if c["w"] in ("diag", "cov") else 0.01), "covariance")


@law("C21", case(), quick=350, nontrivial=nt, classify=lambda c: ["grid=" + c["grid"], "weighting=" + c["w"]])
def rank_one_uncertainty_moves_along_the_sensitivity(c):
    """a single common error of the response: the covariance is proportional to the outer
    product of the parameter sensitivity, without sampling noise"""
    c = dict(c, vec=False, w="none" if c["w"] in ("diag", "cov") else c["w"], rel=1e-5)
    c["U"] = dict(c["U"], k="rank1")
    p, f, H = build(c)
    U = covariance(c, H)
    np.random.seed(c["s"])
    got, C = unpack(F().fit_som(f, ri(H), **kwargs(c, U, f)), 2)
    C = arr(C, (3, 3), "covariance")
    J = model(c, p, f, H, U)
    u = np.sqrt(np.diag(U)) * np.sign(U[np.argmax(np.diag(U))])
    j = J.dot(u)
    # parameters which react much less than the others are only known with less accuracy
    nrm = np.abs(J).dot(np.abs(u))
    want = np.outer(j, j)
    k = np.sum(C * want / np.outer(nrm, nrm) ** 2) / np.sum((want / np.outer(nrm, nrm)) ** 2)
    expect(abs(k - 1) <= 8 * np.sqrt(2 / 1e4) + 0.02, f"covariance is {k} times the propagated one")
    bad = np.abs(C / k - want) > 3e-3 * np.outer(nrm, nrm)
    expect(not np.any(bad), f"covariance is not along the sensitivity: {(C / k / np.outer(nrm, nrm)).tolist()} instead of "
                            f"{(want / np.outer(nrm, nrm)).tolist()} (scaled)")


@law("C21", gen.fd(c=case(), runs=st.sampled_from([300, 600.0])), quick=40, nontrivial=lambda k: True,
     classify=lambda k: cls(k["c"]))
def monte_carlo_covariance_agrees(k):
    """the Monte Carlo variant gives the same parameters and covariance within its noise"""
    c = full_rank(k["c"])
    N = int(k["runs"])
    if c["w"] == "cov" and 4 * c["M"] > N:
        return
    p, f, H = build(c)
    U = covariance(c, H)
    np.random.seed(c["s"])
    got, C = unpack(F().fit_som(f, ri(H), MCruns=k["runs"], **kwargs(c, U, f)), 2)
    C = symmetric_psd(C, "covariance", n=3, tol=1e-6)
    if c["w"] == "cov":
        # the sample covariance of few runs as weight: only the recovery is claimed
        close_pars(got, p, 20 * c["rel"] + 1e-5)
        return
    J = model(c, p, f, H, U)
    want = J.dot(U).dot(J.T)
    s = np.sqrt(np.diag(want))
    d = np.abs(arr(got, (3,)) - p)
    expect(np.all(d <= s * (8 / np.sqrt(N) + 40 * c["rel"]) + 1e-7 * np.maximum(p, [0, 1, 0]) + 1e-7 * p),
           f"Monte Carlo parameters deviate by {d / s} standard uncertainties")
    band(C, want, 8 * np.sqrt(2.0 / N) + 30 * c["rel"] + (0.12 if c["w"] == "diag" else 0.01), "Monte Carlo covariance")


@law("C21", gen.fd(c=case(), d=st.integers(-2, 2), z=st.booleans()), quick=150, nontrivial=lambda k: k["d"] != 0 or k["z"])
def inconsistent_responses_are_rejected(k):
    """wrong lengths of response, uncertainty or weights and zero responses"""
    c = k["c"]
    p, f, H = build(c)
    x = ri(H)
    fit = F().fit_som
    if k["d"]:
        bad = np.resize(x, len(x) + k["d"])
        raises(lambda: fit(f, bad), Exception, "wrong length of the response")
        raises(lambda: fit(f, x, UH=np.abs(bad) * 1e-3), Exception, "wrong length of the uncertainty")
        raises(lambda: fit(f, x, weighting=np.abs(bad)), Exception, "wrong length of the weights")
    if k["z"]:
        i = c["s"] % len(f)
        x[i] = x[len(f) + i] = 0.0
        raises(lambda: fit(f, x), Exception, "response equal to zero")


enlarge(exact_response_gives_back_the_parameters, 24, M=gen.large(30, 600))
enlarge(linear_covariance_is_the_propagated_one, 16, M=gen.large(30, 250))
