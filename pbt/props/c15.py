"""C15: sequential Monte Carlo."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, enlarge, expect, law, unpack
from .c13 import delayed, recursion
from .c14 import F, filt, low_kw

RULE = "at least 4 samples; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): deterministic limits, degenerate coefficient distributions with exact oracles, same-seed consistency, statistical bands and whitening of the noise model"


def filter_spec():
    return gen.fd(f=gen.seeds(), p=st.integers(0, 3), nb=st.integers(1, 6),
                  rmax=st.sampled_from([0.5, 0.9]), bz=st.integers(0, 4),
                  fira=st.sampled_from(["float", "list", "array"]),
                  low=st.sampled_from(["none", "none", "fir", "iir"]))


def filters(s):
    """b, a as passed, a as array, low-pass"""
    r = np.random.RandomState(s["f"] + 1)
    a = gen.stable_poly(s["f"], s["p"], s["rmax"])
    b = r.randn(s["nb"])
    if s["bz"] == 0:
        b[0] = 0.0
    elif s["bz"] == 1:
        b = r.randint(1, 4, s["nb"]).astype(float)
    aa = a
    if s["p"] == 0:
        aa = {"float": 1.0, "list": [1.0], "array": np.array([1.0])}[s["fira"]]
    blow = alow = None
    if s["low"] != "none":
        blow = r.rand(r.randint(1, 4)) + 0.1
    if s["low"] == "iir":
        alow = gen.stable_poly(s["f"] + 1, r.randint(1, 4), 0.7)
    return b, aa, a, blow, alow


def case(**kw):
    d = dict(n=gen.sizes(2, 12, 25), x=gen.vspec(), flt=filter_spec(), seed=gen.seeds(),
             runs=st.integers(2, 30), amp=gen.amps(), shift=st.integers(-4, 4), cov=gen.cspec(),
             noise=st.sampled_from([0.0, 0.1, 1.0, 5.0]), perc=gen.seeds(), u0=st.booleans(),
             arma=st.sampled_from(["none", "none", "ar", "ma", "arma", "float"]))
    d.update(kw)
    return gen.fd(**d)


def nt(c):
    return c["n"] >= 4


def cls(c):
    f = c["flt"]
    rel = np.sign(f["nb"] - 1 - f["p"])
    return [f"low-pass={f['low']}", f"order={f['p']}", f"numerator-denominator={rel:+.0f}",
            f"noise model={c['arma']}"]


def percentiles(seed):
    r = np.random.RandomState(seed + 4)
    p = np.sort(r.choice([0.025, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 0.95, 0.975],
                         r.randint(1, 5), replace=False))
    return p.tolist()


def arma_args(c):
    """phi, theta as passed, as arrays"""
    r = np.random.RandomState(c["seed"] + 8)
    k = c["arma"]
    phi, theta = np.zeros(0), np.zeros(0)
    kw = {}
    if k in ("ar", "arma"):
        phi = -gen.stable_poly(c["seed"], int(r.randint(1, 4)), 0.8)[1:]
        kw["phi"] = phi
    if k in ("ma", "arma"):
        theta = r.uniform(-0.8, 0.8, r.randint(1, 4))
        kw["theta"] = theta
    if k == "float":
        phi = np.array([float(r.uniform(-0.8, 0.8))])
        kw["phi"] = float(phi[0])
        if r.rand() < 0.5:
            theta = np.array([0.5])
            kw["theta"] = 0.5
    return kw, phi, theta


@law("C15", case(), quick=900, nontrivial=nt, classify=cls)
def deterministic_without_uncertainty(c):
    """no noise, certain filter: value, samples and quantiles are the filter output"""
    n = c["n"]
    x = gen.vec(c["x"], n) * c["amp"]
    b, aa, a, blow, alow = filters(c["flt"])
    q = len(a) + len(b) - 1
    want = np.roll(recursion(b, a, filt(blow, alow, x)), c["shift"])
    kw = dict(low_kw(blow, alow), runs=c["runs"], shift=c["shift"])
    kw.update(arma_args(c)[0])
    if c["u0"]:
        kw["Uab"] = np.zeros((q, q))
    m = np.max(np.abs(x)) * np.sum(np.abs(b)) * (np.sum(np.abs(blow)) if blow is not None else 1)
    g = recursion([1.0], a, np.r_[1.0, np.zeros(n - 1)])
    m *= 1 + np.sum(np.abs(g))
    y, Uy = unpack(F().SMC(x, 0.0, b, aa, **kw), 2)
    close(y, want, "values", rtol=1e-10, scale=m)
    expect(np.all(np.abs(arr(Uy, (n,), "uncertainty")) <= 1e-10 * m), "uncertainty is not zero")
    perc = percentiles(c["perc"])
    y, Uy, P = unpack(F().SMC(x, 0.0, b, aa, Perc=perc, **kw), 3)
    close(y, want, "values with quantiles", rtol=1e-10, scale=m)
    close(P, np.tile(want, (len(perc), 1)), "quantiles", rtol=1e-10, scale=m)
    Y = F().SMC(x, 0.0, b, aa, return_samples=True, **kw)
    close(Y, np.tile(want, (c["runs"], 1)), "samples", rtol=1e-10, scale=m)


@law("C15", case(delta=st.sampled_from([0.0, 0.0, 0.3]), percarr=st.booleans()), quick=900,
     nontrivial=nt, classify=cls)
def statistics_are_those_of_the_samples(c):
    """same seed: values and uncertainties are mean and standard deviation of the samples,
    quantiles are sample quantiles, sorted as requested; repetition is identical"""
    n, runs = c["n"], c["runs"]
    x = gen.vec(c["x"], n) * c["amp"]
    b, aa, a, blow, alow = filters(c["flt"])
    q = len(a) + len(b) - 1
    kw = dict(low_kw(blow, alow), runs=runs, shift=c["shift"], Delta=c["delta"] * c["amp"])
    kw.update(arma_args(c)[0])
    if c["u0"]:
        kw["Uab"] = gen.cov(c["cov"], q) * 1e-3
    perc = percentiles(c["perc"])
    nz = c["noise"] * c["amp"]

    def go(**k):
        np.random.seed(c["seed"])
        return F().SMC(x, nz, b, aa, **dict(kw, **k))

    Y = arr(go(return_samples=True), (runs, n), "samples")
    y, Uy = unpack(go(), 2)
    y3, Uy3, P = unpack(go(Perc=np.array(perc) if c["percarr"] else perc), 3)
    y4, Uy4 = unpack(go(), 2)
    expect(np.array_equal(arr(y), arr(y4)) and np.array_equal(arr(Uy), arr(Uy4)),
           "equal seeds give different results")
    m = np.max(np.abs(Y))
    for yy, uu in ((y, Uy), (y3, Uy3)):
        close(yy, np.mean(Y, axis=0), "values", rtol=1e-10, scale=m)
        u = arr(uu, (n,), "uncertainty")
        lo, hi = np.std(Y, axis=0), np.std(Y, axis=0, ddof=1)
        expect(np.all(u >= lo - 1e-9 * m) and np.all(u <= hi + 1e-9 * m),
               "uncertainty is not the standard deviation of the samples")
    P = arr(P, (len(perc), n), "quantiles")
    expect(np.all(np.diff(P, axis=0) >= -1e-12 * m), "quantiles are not sorted")
    S = np.sort(Y, axis=0)
    for p, row in zip(perc, P):
        # every common definition lies between the order statistics around p * runs
        lo = int(np.clip(np.floor(p * runs) - 2, 0, runs - 1))
        hi = int(np.clip(np.ceil(p * runs) + 1, 0, runs - 1))
        expect(np.all(row >= S[lo] - 1e-9 * m) and np.all(row <= S[hi] + 1e-9 * m),
               f"quantile {p} is not the sample quantile")


@law("C15", case(one=st.booleans()), quick=700, nontrivial=nt, classify=cls)
def degenerate_filter_uncertainty(c):
    """no noise: every sample is the output of one filter from the support of the
    coefficient distribution (order a1..., b0...)"""
    n = c["n"]
    x = gen.vec(c["x"], n) * c["amp"]
    b, aa, a, blow, alow = filters(c["flt"])
    p = len(a) - 1
    q = p + len(b)
    r = np.random.RandomState(c["seed"] + 2)
    v = r.randn(q)
    if c["one"]:
        v *= np.arange(q) == r.randint(0, q)
    v *= 0.02 / np.max(np.abs(v)) if p else 1.0
    np.random.seed(c["seed"])
    Y = arr(F().SMC(x, 0.0, b, aa, Uab=np.outer(v, v), runs=c["runs"], shift=c["shift"],
                    return_samples=True, **low_kw(blow, alow)), (c["runs"], n), "samples")
    Y = np.roll(Y, -c["shift"], axis=1)
    xl = filt(blow, alow, x)
    s_all = []
    for y in Y:
        A = [-delayed(y, k) for k in range(1, p + 1)]
        B = [delayed(xl, k) for k in range(len(b))]
        M = np.array(A + B).T
        rhs = y - M.dot(np.r_[a[1:], b])
        d = M.dot(v)
        sc = np.max(np.abs(y)) + np.max(np.abs(M))
        if np.max(np.abs(d)) <= 1e-9 * sc:
            expect(np.max(np.abs(rhs)) <= 1e-7 * sc, "not the output of a possible filter")
            continue
        s = d.dot(rhs) / d.dot(d)
        expect(np.all(np.abs(rhs - s * d) <= 1e-7 * sc), "not the output of a possible filter")
        s_all.append(s)
    if s_all:
        expect(np.max(np.abs(s_all)) < 9, "deviations much larger than the uncertainty")
        expect(np.max(np.abs(s_all)) > 1e-4, "no deviation in any of the runs")


@law("C15", gen.fd(n=st.integers(4, 30), seed=gen.seeds(), x=gen.vspec(), flt=filter_spec(),
                   sigma=st.sampled_from([0.1, 1.0, 20.0]), amp=gen.amps(),
                   arma=st.sampled_from(["none", "ar", "ma", "arma", "float"])),
     quick=250, nontrivial=nt, classify=lambda c: [f"noise model={c['arma']}"])
def noise_follows_the_stated_model(c):
    """inverting the ARMA recursion of the noise found in the samples gives white noise
    with the stated standard deviation (bands of 8 standard errors)"""
    n, runs = c["n"], 1500
    x = gen.vec(c["x"], n) * c["amp"]
    kw, phi, theta = arma_args(c)
    c = dict(c, sigma=c["sigma"] * c["amp"])
    np.random.seed(c["seed"])
    E = arr(F().SMC(x, c["sigma"], np.array([1.0]), 1.0, runs=runs, return_samples=True,
                    **kw), (runs, n), "samples") - x
    W = np.zeros_like(E)
    for i in range(n):
        w = E[:, i].copy()
        for k in range(1, len(phi) + 1):
            if i - k >= 0:
                w -= phi[k - 1] * E[:, i - k]
        for k in range(1, len(theta) + 1):
            if i - k >= 0:
                w -= theta[k - 1] * W[:, i - k]
        W[:, i] = w
    W = W / c["sigma"]
    N = W.size
    expect(np.all(np.abs(np.mean(W, axis=0)) < 8 / np.sqrt(runs)), "mean of the noise")
    # stray noise growth through a non-invertible MA part would only be rounding
    expect(abs(np.mean(W ** 2) - 1) < 8 * np.sqrt(2.0 / N), "variance of the driving noise")
    expect(np.all(np.abs(np.mean(W ** 2, axis=0) - 1) < 8 * np.sqrt(2.0 / runs)),
           "variance of the driving noise at a time")
    for lag in range(1, min(5, n)):
        z = np.mean(W[:, lag:] * W[:, :-lag])
        expect(abs(z) < 8 / np.sqrt(runs * (n - lag)), f"driving noise correlated at lag {lag}")
    z = np.mean(W[1:, :] * W[:-1, :])
    expect(abs(z) < 8 / np.sqrt(N), "runs are not independent")


@law("C15", gen.fd(n=st.integers(2, 15), seed=gen.seeds(), x=gen.vspec(), flt=filter_spec(),
                   sigma=st.sampled_from([0.1, 1.0]), amp=gen.amps(), cov=gen.cspec(),
                   delta=st.sampled_from([0.0, 0.0, 0.5]),
                   what=st.sampled_from(["noise", "noise", "coef"]), shift=st.integers(-2, 2),
                   arma=st.sampled_from(["none", "none", "ar", "ma", "arma"])),
     quick=250, nontrivial=nt,
     classify=lambda c: [c["what"], f"noise model={c['arma']}", f"Delta={c['delta']}"])
def approaches_the_analytic_propagation(c):
    """point-wise mean, standard deviation and quantiles of the output (8 standard errors)"""
    n, runs = c["n"], 3000
    c = dict(c, sigma=c["sigma"] * c["amp"], delta=c["delta"] * c["amp"])
    x = gen.vec(c["x"], n) * c["amp"]
    flt = dict(c["flt"])
    if c["what"] == "coef":
        flt["p"] = 0
    b, aa, a, blow, alow = filters(flt)
    q = len(a) + len(b) - 1
    kw = low_kw(blow, alow)
    m = recursion(b, a, filt(blow, alow, x))
    if c["what"] == "coef":
        U = gen.cov(c["cov"], q)
        xl = filt(blow, alow, x)
        X = np.array([delayed(xl, k) for k in range(q)]).T
        v = np.einsum("ij,jk,ik->i", X, U, X)
        kw["Uab"] = U
        sigma = 0.0
    else:
        sigma = c["sigma"]
        k, phi, theta = arma_args(c)
        kw.update(k)
        d = np.zeros(n)
        d[0] = 1
        h = recursion(np.r_[1.0, theta], np.r_[1.0, -phi], d)
        h = recursion(b, a, filt(blow, alow, h))
        v = sigma ** 2 * np.cumsum(h ** 2)
    dv = c["delta"] ** 2 / 3
    np.random.seed(c["seed"])
    y, Uy, P = unpack(F().SMC(x, sigma, b, aa, runs=runs, Perc=[0.1, 0.5, 0.9],
                              Delta=c["delta"], shift=c["shift"], **kw), 3)
    m, v = np.roll(m, c["shift"]), np.roll(v, c["shift"]) + dv
    y, Uy, P = arr(y, (n,), "values"), arr(Uy, (n,), "uncertainty"), arr(P, (3, n), "quantiles")
    eps = 1e-9 * (np.max(np.abs(m)) + np.sqrt(np.max(v)))
    s = np.sqrt(v)
    expect(np.all(np.abs(y - m) <= 8 * s / np.sqrt(runs) + eps), "value is off")
    expect(np.all(np.abs(Uy - s) <= 8 * s / np.sqrt(2.0 * runs) + eps), "uncertainty is off")
    if c["delta"] == 0:
        z = 1.2815515655446004
        for row, k in zip(P, (-z, 0.0, z)):
            expect(np.all(np.abs(row - (m + k * s)) <= 8 * 1.75 * s / np.sqrt(runs) + eps),
                   "quantile is off")
    else:
        np.random.seed(c["seed"])
        Y = arr(F().SMC(x, 0.0, b, aa, runs=200, Delta=c["delta"], return_samples=True,
                        **low_kw(blow, alow)), (200, n), "samples")
        D = Y - recursion(b, a, filt(blow, alow, x))
        expect(np.all(np.abs(D) <= c["delta"] * (1 + 1e-9) + eps), "systematic error too large")
        expect(np.all(np.max(D, axis=0) > 0.8 * c["delta"])
               and np.all(np.min(D, axis=0) < -0.8 * c["delta"]), "systematic error range")


enlarge(deterministic_without_uncertainty, 16, n=gen.large(25, 400))
enlarge(statistics_are_those_of_the_samples, 24, runs=gen.large(30, 1500))
enlarge(degenerate_filter_uncertainty, 16, n=gen.large(25, 300))
