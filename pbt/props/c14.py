"""C14: Monte Carlo filtering and the uncorrelated normal distribution."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, enlarge, expect, law, raises, unpack
from .c13 import recursion

RULE = "at least 4 samples and (except for the deterministic limit) a non-zero uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): deterministic limits, degenerate (rank-deficient) distributions with exact oracles, same-seed metamorphic relations and wide statistical bands"


def F():
    from PyDynamic.uncertainty import propagate_MonteCarlo

    return propagate_MonteCarlo


def filt(blow, alow, x):
    if blow is None:
        return np.asarray(x, float)
    return recursion(blow, [1.0] if alow is None else alow, x)


def filter_spec():
    return gen.fd(f=gen.seeds(), p=st.integers(0, 3), nb=st.integers(1, 5),
                  rmax=st.sampled_from([0.5, 0.9]), bz=st.integers(0, 4),
                  low=st.sampled_from(["none", "none", "fir", "iir"]))


def filters(s):
    r = np.random.RandomState(s["f"] + 1)
    a = gen.stable_poly(s["f"], s["p"], s["rmax"])
    b = r.randn(s["nb"])
    if s["bz"] == 0:
        b[0] = 0.0
    elif s["bz"] == 1:
        b = r.randint(1, 4, s["nb"]).astype(float)
    blow = alow = None
    if s["low"] != "none":
        blow = r.rand(r.randint(1, 4)) + 0.1
    if s["low"] == "iir":
        alow = gen.stable_poly(s["f"] + 1, r.randint(1, 3), 0.7)
    return b, a, blow, alow


def low_kw(blow, alow):
    kw = {}
    if blow is not None:
        kw["blow"] = blow
    if alow is not None:
        kw["alow"] = alow
    return kw


def case():
    return gen.fd(n=gen.sizes(2, 10, 25), x=gen.vspec(), flt=filter_spec(),
                  ux=gen.uspec(), cov=gen.cspec(), form=st.sampled_from(["float", "vec", "mat"]),
                  amp=gen.amps(), seed=gen.seeds(), runs=st.integers(2, 12), shift=st.integers(-4, 4),
                  one=st.booleans())


def nt(c):
    return c["n"] >= 4


def cls(c):
    return [f"Ux={c['form']}", f"low-pass={c['flt']['low']}", f"order={c['flt']['p']}"]


@law("C14", case(), quick=700, nontrivial=nt, classify=cls)
def deterministic_without_uncertainty(c):
    """zero uncertainties: mean and every sample are the (low-pass filtered, filtered,
    shifted) signal, the covariance is zero"""
    x = gen.vec(c["x"], c["n"]) * c["amp"]
    b, a, blow, alow = filters(c["flt"])
    q = len(a) + len(b) - 1
    n = c["n"]
    Ux = {"float": 0.0, "vec": np.zeros(n), "mat": np.zeros((n, n))}[c["form"]]
    want = np.roll(recursion(b, a, filt(blow, alow, x)), c["shift"])
    kw = dict(low_kw(blow, alow), runs=c["runs"], shift=c["shift"], verbose=False)
    al = a.tolist() if c["one"] else a
    y, Uy = unpack(F().MC(x, Ux, b, al, np.zeros((q, q)), **kw), 2)
    close(y, want, "mean", rtol=1e-10)
    m = np.max(np.abs(want)) ** 2
    expect(np.all(np.abs(arr(Uy, (n, n), "covariance")) <= 1e-20 * m), "covariance is not zero")
    Y = arr(F().MC(x, Ux, b, al, np.zeros((q, q)), return_samples=True, **kw),
            (c["runs"], n), "samples")
    close(Y, np.tile(want, (c["runs"], 1)), "samples", rtol=1e-10)


@law("C14", case(), quick=700, nontrivial=nt, classify=cls)
def statistics_are_those_of_the_samples(c):
    """same seed: mean and covariance are those of the samples; repetition is identical;
    the runs differ from each other"""
    x = gen.vec(c["x"], c["n"]) * c["amp"]
    n = c["n"]
    b, a, blow, alow = filters(c["flt"])
    q = len(a) + len(b) - 1
    U = gen.cov(c["cov"], q) * 1e-2
    if c["form"] == "float":
        Ux = 0.3 * c["amp"]
    elif c["form"] == "vec":
        Ux = gen.uvec(c["ux"], n) * c["amp"]
    else:
        Ux = gen.cov(c["cov"], n) * c["amp"] ** 2
    kw = dict(low_kw(blow, alow), runs=c["runs"], shift=c["shift"], verbose=False)
    np.random.seed(c["seed"])
    y, Uy = unpack(F().MC(x, Ux, b, a, U, **kw), 2)
    np.random.seed(c["seed"])
    Y = arr(F().MC(x, Ux, b, a, U, return_samples=True, **kw), (c["runs"], n), "samples")
    np.random.seed(c["seed"])
    y2, Uy2 = unpack(F().MC(x, Ux, b, a, U, **kw), 2)
    # results of unstable filters are left out of the statistics, and are zero
    used = np.any(Y != 0, axis=1)
    if c["form"] == "float" and np.sum(used) >= 2:
        y = arr(y, (n,), "mean")
        Y = Y[used]
        s = np.max(np.abs(Y))
        close(y, np.mean(Y, axis=0), "mean", rtol=1e-10, scale=s)
        d = Y - np.mean(Y, axis=0)
        close(Uy, d.T.dot(d) / (len(Y) - 1), "covariance", rtol=1e-9, scale=1e-3 * s ** 2)
        for i in range(1, len(Y)):
            expect(not np.array_equal(Y[0], Y[i]), "two runs are identical")
    elif c["form"] != "float" and c["flt"]["p"] == 0:
        s = np.max(np.abs(Y))
        close(y, np.mean(Y, axis=0), "mean", rtol=1e-10, scale=s)
        d = Y - np.mean(Y, axis=0)
        close(Uy, d.T.dot(d) / (len(Y) - 1), "covariance", rtol=1e-9, scale=1e-3 * s ** 2)
    if np.sum(used) >= 2:
        expect(np.array_equal(arr(y), arr(y2)) and np.array_equal(arr(Uy), arr(Uy2)),
               "equal seeds give different results")


@law("C14", case(), quick=700, nontrivial=nt)
def degenerate_input_uncertainty(c):
    """all samples deviate within the (low-dimensional) support of the input distribution,
    mapped by the certain filter"""
    n = c["n"]
    x = gen.vec(c["x"], n) * c["amp"]
    b, a, blow, alow = filters(c["flt"])
    q = len(a) + len(b) - 1
    r = np.random.RandomState(c["seed"] + 2)
    if c["form"] == "mat":
        v = r.randn(n)
        k = int(r.randint(1, 3))
        V = r.randn(n, k) * c["amp"]
        Ux = V.dot(V.T)
    else:
        k = 1
        j = r.randint(0, n)
        V = np.zeros((n, 1))
        V[j] = 0.8 * c["amp"]
        Ux = np.abs(V[:, 0])
    np.random.seed(c["seed"])
    Y = arr(F().MC(x, Ux, b, a, np.zeros((q, q)), runs=c["runs"], shift=c["shift"],
                   verbose=False, return_samples=True, **low_kw(blow, alow)),
            (c["runs"], n), "samples")
    Y = np.roll(Y, -c["shift"], axis=1)
    g = recursion(b, a, filt(blow, alow, x))
    G = np.array([recursion(b, a, filt(blow, alow, V[:, i])) for i in range(k)]).T
    D = (Y - g).T
    coef = np.linalg.lstsq(G, D, rcond=None)[0]
    res = D - G.dot(coef)
    sc = np.max(np.abs(g)) + np.max(np.abs(D)) + np.max(np.abs(G))
    expect(np.all(np.abs(res) <= 1e-7 * sc), "deviation outside of the support of the input")
    if np.linalg.matrix_rank(G, tol=1e-6 * max(np.max(np.abs(G)), 1e-300)) == k:
        expect(np.all(np.abs(coef) < 9), "deviations much larger than the uncertainty")
        expect(np.max(np.abs(coef)) > 1e-4, "no deviation in any of the runs")


@law("C14", case(), quick=700, nontrivial=nt)
def degenerate_filter_uncertainty(c):
    """certain signal: every sample is the output of a filter from the support of the
    coefficient distribution (order a1..., b0...)"""
    n = c["n"]
    x = gen.vec(c["x"], n) * c["amp"]
    b, a, blow, alow = filters(c["flt"])
    p = len(a) - 1
    q = p + len(b)
    r = np.random.RandomState(c["seed"] + 2)
    v = r.randn(q)
    if c["one"]:
        v *= np.arange(q) == r.randint(0, q)
    v *= 0.02 / np.max(np.abs(v)) if p else 1.0
    np.random.seed(c["seed"])
    Y = arr(F().MC(x, 0.0, b, a, np.outer(v, v), runs=c["runs"], shift=c["shift"],
                   verbose=False, return_samples=True, **low_kw(blow, alow)),
            (c["runs"], n), "samples")
    Y = np.roll(Y, -c["shift"], axis=1)
    xl = filt(blow, alow, x)
    s_all = []
    for y in Y:
        # a(y) - b(x) = 0 is linear in the coefficients: theta = theta0 + s v
        A = [-np.r_[np.zeros(min(k, n)), y[: max(0, n - k)]] for k in range(1, p + 1)]
        B = [np.r_[np.zeros(min(k, n)), xl[: max(0, n - k)]] for k in range(len(b))]
        M = np.array(A + B).T
        th0 = np.r_[a[1:], b]
        rhs = y - M.dot(th0)
        d = M.dot(v)
        sc = np.max(np.abs(y)) + np.max(np.abs(M))
        if p and not np.any(y):
            continue  # an unstable filter: not evaluated
        if np.max(np.abs(d)) <= 1e-9 * sc:
            expect(np.max(np.abs(rhs)) <= 1e-7 * sc, "not the output of a possible filter")
            continue
        s = d.dot(rhs) / d.dot(d)
        expect(np.all(np.abs(rhs - s * d) <= 1e-7 * sc), "not the output of a possible filter")
        s_all.append(s)
    if s_all:
        expect(np.max(np.abs(s_all)) < 9, "deviations much larger than the uncertainty")
        expect(np.max(np.abs(s_all)) > 1e-4, "no deviation in any of the runs")


@law("C14", gen.fd(n=st.integers(2, 7), x=gen.vspec(), cov=gen.cspec(),
                   form=st.sampled_from(["float", "vec", "mat", "coef"]), flt=filter_spec(),
                   amp=gen.amps(), ux=gen.uspec(("pos", "zerosome", "ramp")), seed=gen.seeds()),
     quick=64, thorough=1200, classify=lambda c: [f"U={c['form']}"])
def approaches_the_analytic_propagation(c):
    """mean and covariance in a band of 8 standard errors around the exact Gaussian ones"""
    n, runs = c["n"], 1200
    x = gen.vec(c["x"], n) * c["amp"]
    flt = dict(c["flt"])
    if c["form"] == "coef":
        flt["p"] = 0
    b, a, blow, alow = filters(flt)
    q = len(a) + len(b) - 1
    U = np.zeros((q, q))
    I = np.eye(n)
    T = np.array([recursion(b, a, filt(blow, alow, I[i])) for i in range(n)]).T
    if c["form"] == "coef":
        U = gen.cov(c["cov"], q)
        xl = filt(blow, alow, x)
        X = np.array([np.r_[np.zeros(min(k, n)), xl[: max(0, n - k)]] for k in range(q)]).T
        C = X.dot(U).dot(X.T)
        Ux = 0.0
    elif c["form"] == "float":
        Ux = 0.4 * c["amp"]
        C = Ux ** 2 * T.dot(T.T)
    elif c["form"] == "vec":
        Ux = gen.uvec(c["ux"], n) * c["amp"]
        C = (T * Ux ** 2).dot(T.T)
    else:
        Ux = gen.cov(c["cov"], n) * c["amp"] ** 2
        C = T.dot(Ux).dot(T.T)
    np.random.seed(c["seed"])
    y, Uy = unpack(F().MC(x, Ux, b, a, U, runs=runs, verbose=False, **low_kw(blow, alow)), 2)
    v = np.diag(C)
    eps = 1e-9 * (np.max(np.abs(T.dot(x))) + np.sqrt(np.max(v)))
    y, Uy = arr(y, (n,), "mean"), arr(Uy, (n, n), "covariance")
    expect(np.all(np.abs(y - T.dot(x)) <= 8 * np.sqrt(v / runs) + eps), "mean is off")
    se = np.sqrt((np.outer(v, v) + C ** 2) / runs)
    expect(np.all(np.abs(Uy - C) <= 8 * se + eps ** 2 + 1e-9 * np.max(v)), "covariance is off")


@law("C14", gen.fd(n=st.integers(1, 8), x=gen.vspec(), u=gen.uspec(),
                   form=st.sampled_from(["both", "locfloat", "scalefloat", "loc1", "scale1"]),
                   size=st.integers(1, 20), seed=gen.seeds()), quick=600,
     classify=lambda c: [c["form"]])
def normal_zero_corr(c):
    """locations and scales of either length one or n; zero scale is exact; draws have
    shape (size, n), are standardised by loc and scale; wrong arguments are rejected"""
    Z = F().Normal_ZeroCorr
    n = c["n"]
    x, u = gen.vec(c["x"], n), gen.uvec(c["u"], n)
    loc, scale = x, u
    if c["form"] == "locfloat":
        loc, x = 1.5, np.full(n, 1.5)
    elif c["form"] == "loc1":
        loc, x = np.array([1.5]), np.full(n, 1.5)
    elif c["form"] == "scalefloat":
        scale, u = 0.7, np.full(n, 0.7)
    elif c["form"] == "scale1":
        scale, u = np.array([0.7]), np.full(n, 0.7)
    d = Z(loc=loc, scale=scale)
    np.random.seed(c["seed"])
    R = arr(d.rvs(c["size"]), (c["size"], n), "draws")
    one = arr(d.rvs(), (1, n), "one draw")
    z = u == 0
    expect(np.array_equal(R[:, z], np.tile(x[z], (c["size"], 1))), "zero scale, but deviation")
    if np.any(~z):
        D = (R - x)[:, ~z] / u[~z]
        expect(np.all(np.abs(D) < 9), "draws far outside of the scale")
        expect(np.all(D != 0) or np.any(np.abs(x) > 1e6 * np.max(u)), "no deviation")
        N = D.size
        expect(abs(np.mean(D)) < 8 / np.sqrt(N), "mean of the draws")
        if N > 30:
            expect(abs(np.mean(D ** 2) - 1) < 8 * np.sqrt(2.0 / N), "variance of the draws")
    raises(lambda: Z(loc=np.zeros(n + 2), scale=np.ones(n + 1 if n > 1 else 2)), ValueError,
           "mismatching sizes")
    raises(lambda: Z(loc=0.0, scale=1.0), TypeError, "two floats")


enlarge(deterministic_without_uncertainty, 16, n=gen.large(25, 200))
enlarge(statistics_are_those_of_the_samples, 16, runs=gen.large(12, 600))
enlarge(degenerate_input_uncertainty, 16, n=gen.large(25, 150))
