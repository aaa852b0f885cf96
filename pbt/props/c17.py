"""C17: update Monte Carlo for filters."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, enlarge, expect, law, symmetric_psd, unpack
from .c13 import recursion
from .c14 import F, filt, low_kw
from .c15 import delayed, filter_spec, filters

RULE = "at least 4 samples; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): deterministic limits, consistency of bounds and histograms, same-seed nesting of intervals, statistical bands against the analytic propagation"


def case(**kw):
    d = dict(n=st.integers(2, 10), x=gen.vspec(), flt=filter_spec(), seed=gen.seeds(),
             runs=st.integers(2, 60), block=st.integers(1, 30), init=st.integers(2, 15),
             nbins=st.one_of(st.integers(2, 30), st.lists(st.integers(2, 30), min_size=1,
                                                          max_size=3, unique=True)),
             cov=gen.cspec(), ci=st.sampled_from([0.5, 0.8, 0.9, 0.95, 0.99]),
             scale=st.sampled_from([1.0, 1.0, 2.0, -0.5]), amp=gen.amps())
    d.update(kw)
    return gen.fd(**d)


def nt(c):
    return c["n"] >= 4


def cls(c):
    f = c["flt"]
    return [f"low-pass={f['low']}", f"order={f['p']}",
            "histograms=%d" % (len(c["nbins"]) if isinstance(c["nbins"], list) else 1)]


def prepare(c):
    b, _, a, blow, alow = filters(c["flt"])
    x = gen.vec(c["x"], c["n"]) * c["amp"]
    kw = dict(runs=c["runs"], blocksize=c["block"], runs_init=c["init"], nbins=c["nbins"])
    low = low_kw(blow, alow)
    # a low-pass with unnormalised denominator is the same filter
    k = c["scale"]
    if blow is not None and k != 1.0:
        low["blow"] = blow * k
        low["alow"] = (np.array([1.0]) if alow is None else alow) * k
    kw.update(low)
    return x, b, a, blow, alow, kw


def nb_list(c):
    return c["nbins"] if isinstance(c["nbins"], list) else [c["nbins"]]


def check_shapes(c, res):
    y, Uy, lo, hi, h = unpack(res, 5)
    n, k = c["n"], len(nb_list(c))
    y, Uy = arr(y, (n,), "values"), arr(Uy, (n, n), "covariance")
    lo, hi = arr(lo, (k, n), "lower bounds"), arr(hi, (k, n), "upper bounds")
    expect(isinstance(h, dict) and set(h) == set(nb_list(c)),
           f"histograms {sorted(h)} of the requested {sorted(nb_list(c))}")
    return y, Uy, lo, hi, h


@law("C17", case(), quick=72, thorough=1500, nontrivial=nt, classify=cls)
def deterministic_without_uncertainty(c):
    """no noise, certain filter: value and both bounds are the filter output"""
    x, b, a, blow, alow, kw = prepare(c)
    q = len(a) + len(b) - 1
    want = recursion(b, a, filt(blow, alow, x))
    m = np.max(np.abs(x)) * (1 + np.sum(np.abs(b))) * (1 + (np.sum(blow) if blow is not None else 0))
    g = recursion([1.0], a, np.r_[1.0, np.zeros(c["n"] - 1)])
    m *= 1 + np.sum(np.abs(g))
    y, Uy, lo, hi, h = check_shapes(c, F().UMC(x, b, a, np.zeros((q, q)), sigma=0,
                                               credible_interval=c["ci"], **kw))
    close(y, want, "values", rtol=1e-10, scale=m)
    expect(np.all(np.abs(Uy) <= 1e-18 * m ** 2), "covariance is not zero")
    for w, v in (("lower", lo), ("upper", hi)):
        close(v, np.tile(want, (len(v), 1)), w + " bounds", rtol=1e-10, scale=m)
    for n, d in h.items():
        C = arr(d["bin-counts"], (n, c["n"]), "counts")
        expect(np.all(np.sum(C, axis=0) == c["runs"]), "a histogram does not count every run")


@law("C17", case(sigma=st.sampled_from([0.1, 1.0, 3.0]),
                 delta=st.sampled_from([0.0, 0.0, 0.4]),
                 arma=st.sampled_from([0, 0, 1])), quick=72, thorough=1500, nontrivial=nt,
     classify=cls)
def bounds_and_histograms_are_consistent(c):
    """each histogram counts every run once; bounds are ordered, lie in the histogram and
    are its quantiles; larger credibility contains smaller; seeds reproduce"""
    x, b, a, blow, alow, kw = prepare(c)
    q = len(a) + len(b) - 1
    U = gen.cov(c["cov"], q) * 1e-3
    kw.update(sigma=c["sigma"] * c["amp"], Delta=c["delta"] * c["amp"])
    if c["arma"]:
        kw.update(phi=np.array([0.4, 0.1]), theta=np.array([0.3]))
    n, runs = c["n"], c["runs"]

    def go(**k):
        np.random.seed(c["seed"])
        return check_shapes(c, F().UMC(x, b, a, U, **dict(kw, **k)))

    y, Uy, lo, hi, h = go(credible_interval=c["ci"])
    big = go(credible_interval=1 - (1 - c["ci"]) / 3)
    expect(np.array_equal(y, big[0]) and np.array_equal(Uy, big[1]),
           "equal seeds give different results")
    t = 1e-9 * (np.max(np.abs(y)) + np.sqrt(np.max(np.abs(Uy)))) + 1e-300
    expect(np.all(lo <= hi + t), "lower bound above upper bound")
    expect(np.all(big[2] <= lo + t) and np.all(big[3] >= hi - t),
           "larger credible interval does not contain the smaller one")
    symmetric_psd(Uy, n=n, tol=1e-8)
    al = (1 - c["ci"]) / 2 * runs
    # rows of the bounds belong to the histograms in the order of the dictionary
    for i, (nb, d) in enumerate(h.items()):
        E = arr(d["bin-edges"], (nb + 1, n), "bin edges")
        C = arr(d["bin-counts"], (nb, n), "bin counts")
        expect(np.all(np.sum(C, axis=0) == runs), f"histogram with {nb} bins does not count "
                                                  "every run once")
        expect(np.all(np.diff(E, axis=0) >= -t), "bin edges are not ascending")
        expect(np.all(y >= E[0] - t) and np.all(y <= E[-1] + t), "mean outside of the histogram")
        expect(np.all(lo[i] >= E[0] - t) and np.all(hi[i] <= E[-1] + t),
               "bound outside of the histogram")
        cum = np.vstack([np.zeros((1, n)), np.cumsum(C, axis=0)])
        for k in range(n):
            for v, target in ((lo[i, k], al), (hi[i, k], runs - al)):
                below = max(cum[j, k] for j in range(nb + 1) if E[j, k] <= v + t)
                # runs certainly at or below v / possibly below v (one bin)
                floor_ = max([cum[j, k] for j in range(nb + 1) if E[j, k] <= v - t] + [0.0])
                ceil_ = min([cum[j, k] for j in range(nb + 1) if E[j, k] >= v + t] + [runs])
                expect(floor_ - 1e-6 <= target <= ceil_ + 1e-6 or below == target,
                       f"bound {v!r} is not the quantile of its histogram")
        # variance from the histogram: within the bin widths
        w = np.max(np.diff(E, axis=0), axis=0)
        mid = (E[1:] + E[:-1]) / 2
        mh = np.sum(mid * C, axis=0) / runs
        expect(np.all(np.abs(mh - y) <= w / 2 + t), "mean does not fit to its histogram")


@law("C17", case(what=st.sampled_from(["noise", "noise", "coef", "delta"]),
                 sigma=st.sampled_from([0.1, 1.0])), quick=24, thorough=400, nontrivial=nt,
     classify=lambda c: [c["what"]])
def approaches_the_analytic_propagation(c):
    """mean, covariance and bounds in a band of 8 standard errors around the exact ones"""
    c = dict(c, flt=dict(c["flt"]), runs=600, block=100, init=60, nbins=[60])
    n, runs = c["n"], c["runs"]
    if c["what"] == "coef":
        c["flt"]["p"] = 0
    x, b, a, blow, alow, kw = prepare(c)
    q = len(a) + len(b) - 1
    U = np.zeros((q, q))
    m = recursion(b, a, filt(blow, alow, x))
    sigma, delta = 0.0, 0.0
    if c["what"] == "coef":
        U = gen.cov(c["cov"], q)
        xl = filt(blow, alow, x)
        X = np.array([delayed(xl, k) for k in range(q)]).T
        C = X.dot(U).dot(X.T)
    elif c["what"] == "noise":
        sigma = c["sigma"] * c["amp"]
        I = np.eye(n)
        T = np.array([recursion(b, a, filt(blow, alow, I[i])) for i in range(n)]).T
        C = sigma ** 2 * T.dot(T.T)
    else:
        delta = 0.5 * c["amp"]
        C = np.eye(n) * delta ** 2 / 3
    np.random.seed(c["seed"])
    y, Uy, lo, hi, h = check_shapes(c, F().UMC(x, b, a, U, sigma=sigma, Delta=delta,
                                               credible_interval=0.9, **kw))
    v = np.diag(C)
    eps = 1e-9 * (np.max(np.abs(m)) + np.sqrt(np.max(v)))
    expect(np.all(np.abs(y - m) <= 8 * np.sqrt(v / runs) + eps), "mean is off")
    se = np.sqrt((np.outer(v, v) + C ** 2) / runs)
    expect(np.all(np.abs(Uy - C) <= 8 * se + eps ** 2 + 1e-9 * np.max(v)), "covariance is off")
    E = h[60]["bin-edges"]
    w = np.max(np.diff(E, axis=0), axis=0)
    s = np.sqrt(v)
    if c["what"] == "delta":
        expect(np.all(E[0] >= m - delta - eps) and np.all(E[-1] <= m + delta + eps),
               "systematic correction out of its bounds")
        L, H = m - 0.9 * delta, m + 0.9 * delta
        band = 8 * 0.22 * 2 * delta / np.sqrt(runs)
    else:
        L, H = m - 1.6448536 * s, m + 1.6448536 * s
        band = 8 * 2.12 * s / np.sqrt(runs)
    expect(np.all(np.abs(lo - L) <= band + w + eps), "lower bound is off")
    expect(np.all(np.abs(hi - H) <= band + w + eps), "upper bound is off")


enlarge(bounds_and_histograms_are_consistent, 8, runs=gen.large(60, 500), block=gen.large(8, 200))
