"""C25: noise generators."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, expect, law, raises, symmetric_psd, unpack

RULE = "at least 16 samples and a standard deviation greater than zero; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): inversion of the generating recursion, spectral ratio against the power law, statistics of generated sequences in bands of 8 standard errors, explicit kernel autocovariance, seed metamorphic relations"


def F():
    import importlib

    return importlib.import_module("PyDynamic.misc.noise")


def T():
    from PyDynamic.misc import testsignals

    return testsignals


STD = st.sampled_from([1.0, 0.1, 5, 1e-4, 1e3, 1])
COL = {"violet": 2, "blue": 1, "white": 0, "pink": -1, "red": -2, "brown": -2}


def white(x, std, mean, what):
    """whiteness, mean and standard deviation in a band of 8 standard errors"""
    n = len(x)
    expect(abs(np.mean(x) - mean) <= 8 * std / np.sqrt(n), f"{what}: mean {np.mean(x)} instead of {mean}")
    z = (x - mean) / std
    v = np.mean(z ** 2)
    expect(abs(v - 1) <= 8 * np.sqrt(2.0 / n), f"{what}: variance ratio {v}")
    for k in range(1, 8):
        c = np.mean(z[:-k] * z[k:])
        expect(abs(c) <= 8 / np.sqrt(n - k), f"{what}: correlation {c} at lag {k}")
    expect(abs(np.mean(z ** 3)) <= 10 * np.sqrt(15.0 / n), f"{what}: skewed")
    expect(abs(np.mean(z ** 4) - 3) <= 12 * np.sqrt(96.0 / n), f"{what}: fourth moment {np.mean(z**4)}")


@law("C25", gen.fd(N=st.sampled_from([500, 1000, 3000, 777]), mean=st.sampled_from([0, 1.5, -3, 1e3]),
                   std=STD, seed=gen.seeds(), form=st.integers(0, 2)), quick=400,
     classify=lambda c: [f"std={c['std']}"])
def white_noise_has_mean_and_deviation(c):
    """mean, standard deviation, whiteness, normal moments; reproducible by seed"""
    kw = [dict(mean=c["mean"], std=c["std"]), dict(std=c["std"]), dict()][c["form"]]
    mean, std = kw.get("mean", 0), kw.get("std", 1)
    np.random.seed(c["seed"])
    x = arr(F().white_gaussian(c["N"], **kw), (c["N"],), "white noise")
    white(x, std, mean, "white_gaussian")
    np.random.seed(c["seed"])
    y = arr(F().white_gaussian(c["N"], **kw), (c["N"],))
    expect(np.array_equal(x, y), "equal seeds give different noise")
    np.random.seed(c["seed"] + 1)
    expect(not np.array_equal(x, arr(F().white_gaussian(c["N"], **kw))), "seed has no effect")


# ------------------------------------------------------------------ ARMA
def arma():
    return gen.fd(p=st.integers(0, 4), q=st.integers(0, 4), s=gen.seeds(), std=STD,
                  seed=gen.seeds(), n=gen.sizes(1, 12, 60, 200), form=st.sampled_from(
                      ["array", "list", "scalar", "omit"]))


def coefs(c):
    """stationary AR and invertible MA coefficients and the arguments describing them"""
    phi = -gen.stable_poly(c["s"], c["p"], 0.9)[1:]
    theta = gen.stable_poly(c["s"] + 1, c["q"], 0.9)[1:]
    f = c["form"]
    kw = {}
    for name, v in (("phi", phi), ("theta", theta)):
        if f == "scalar" and len(v) == 1:
            kw[name] = float(v[0])
        elif len(v) == 0 and f in ("scalar", "omit"):
            if f == "scalar":
                kw[name] = 0
        elif f == "list":
            kw[name] = [float(t) for t in v] or [0.0]
        else:
            kw[name] = v if len(v) else np.zeros(1)
    return phi, theta, kw


def innovations(e, phi, theta):
    w = np.zeros(len(e))
    for n in range(len(e)):
        w[n] = e[n]
        for j in range(1, min(len(phi), n) + 1):
            w[n] -= phi[j - 1] * e[n - j]
        for j in range(1, min(len(theta), n) + 1):
            w[n] -= theta[j - 1] * w[n - j]
    return w


@law("C25", arma(), quick=900, nontrivial=lambda c: c["p"] + c["q"] > 0 and c["n"] >= 5,
     classify=lambda c: [f"p={c['p']}", f"q={c['q']}", "form=" + c["form"]])
def arma_is_the_recursion_on_white_noise(c):
    """inverting the recursion gives the innovations: those of the process without
    coefficients for the same seed, at every time from the first sample on"""
    phi, theta, kw = coefs(c)
    n, std = c["n"], c["std"]
    A = F().ARMA
    np.random.seed(c["seed"])
    e = arr(A(n, std=std, **kw), (n,), "ARMA noise")
    np.random.seed(c["seed"])
    w = arr(A(n, std=std), (n,), "white noise")
    g = max(1.0, np.max(np.abs(e)) / std)
    close(innovations(e, phi, theta), w, "innovations", rtol=1e-8, scale=std * g * 10)
    np.random.seed(c["seed"])
    e2 = arr(A(n, std=2.0 * std, **kw), (n,))
    close(e2, 2 * e, "doubled innovations", rtol=1e-12, scale=std)
    np.random.seed(c["seed"])
    k = 1 + c["s"] % n
    close(A(k, std=std, **kw), e[:k], "first samples", rtol=1e-12, scale=std)


@law("C25", gen.fd(a=arma(), N=st.sampled_from([1500, 3000])), quick=60, nontrivial=lambda k: k["a"]["p"] + k["a"]["q"] > 0)
def arma_innovations_are_white(k):
    """the recovered innovations are white with the requested standard deviation"""
    c = k["a"]
    phi, theta, kw = coefs(c)
    np.random.seed(c["seed"])
    e = arr(F().ARMA(k["N"], std=c["std"], **kw), (k["N"],), "ARMA noise")
    white(innovations(e, phi, theta), c["std"], 0.0, "innovations")
    expect(np.std(e) > 0, "constant noise")


# ------------------------------------------------------------------ power laws
def colour():
    return st.one_of(st.sampled_from(sorted(COL)), st.sampled_from([0, 1, -1, 2, -2, 0.5, -1.3, 3]))


def alpha_of(c):
    return float(COL[c]) if isinstance(c, str) else float(c)


def plaw():
    return gen.fd(N=gen.sizes(16, 40, 200, 1001), col=colour(), mean=st.sampled_from([0.0, 1.0, -20, 1e3]),
                  std=STD, seed=gen.seeds(), user=st.booleans(), default=st.integers(0, 4), w=gen.amps(),
                  off=st.sampled_from([0.0, 3.0, -50.0]))


@law("C25", plaw(), quick=900, nontrivial=lambda c: c["N"] >= 16,
     classify=lambda c: [f"colour={c['col']}", "own noise" if c["user"] else "length", "odd" if c["N"] % 2 else "even"])
def power_law_noise_has_exact_moments_and_spectrum(c):
    """mean and standard deviation exactly, spectral magnitude times index^(alpha/2), phase kept"""
    N, al = c["N"], alpha_of(c["col"])
    P = F().power_law_noise
    kw = dict(mean=c["mean"], std=c["std"])
    if c["default"] == 0:
        kw = {}
    mean, std = kw.get("mean", 0.0), kw.get("std", 1.0)
    if c["col"] != "white" or c["seed"] % 2:
        kw["color_value"] = c["col"]
    np.random.seed(c["seed"])
    w = np.random.RandomState(c["seed"]).randn(N) * c["w"]
    if c["user"]:
        x = arr(P(w=w, **kw), (N,), "coloured noise")
    else:
        x = arr(P(N, **kw) if c["seed"] % 2 else P(N=N, **kw), (N,), "coloured noise")
    acc = 1e-9 * (abs(mean) + std)
    expect(abs(np.mean(x) - mean) <= acc, f"mean {np.mean(x)} instead of {mean}")
    expect(abs(np.std(x) - std) <= acc, f"standard deviation {np.std(x)} instead of {std}")
    np.random.seed(c["seed"])
    y = arr(P(w=w, **kw) if c["user"] else P(N=N, **kw), (N,))
    expect(np.array_equal(x, y), "equal seeds give different noise")
    if c["user"]:
        X, W = np.fft.rfft(x - mean)[1:], np.fft.rfft(w)[1:]
        if N % 2 == 0:
            X, W = X[:-1], W[:-1]
        q = X / W
        j = np.arange(1, len(q) + 1) + 1.0
        t = q / j ** (al / 2)
        t = t / np.exp(np.mean(np.log(np.abs(t))))
        # the frequency index is stretched by steps/(steps - 1)
        tol = 1.5 * abs(al) / (N // 2) + 1e-8 * np.max(np.abs(W)) / np.abs(W) \
            * max(1.0, (len(q) + 2.0) ** abs(al / 2)) * (1 + abs(mean) / std)
        expect(np.all(np.abs(t - 1) <= tol),
               f"spectral ratio deviates from the power law by {np.max(np.abs(t - 1)):.3g}")
        z = arr(P(w=w * 3.0 + c["off"], **kw), (N,))
        close(z, x, "scaled and shifted white noise", rtol=1e-7 * (1 + abs(c["off"]) / c["w"]),
              scale=std + abs(mean))


@law("C25", gen.fd(col=colour(), N=st.sampled_from([8, 33, 64]), seed=gen.seeds(), std=STD),
     quick=60, nontrivial=lambda c: c["N"] >= 16)
def generated_power_spectrum_follows_the_colour(c):
    """average periodogram of many generated sequences: slope alpha over the octaves"""
    N, al = c["N"], alpha_of(c["col"])
    np.random.seed(c["seed"])
    R = 400
    S = np.zeros(N // 2 + 1)
    for _ in range(R):
        x = arr(F().power_law_noise(N=N, color_value=c["col"], std=c["std"]), (N,))
        S += np.abs(np.fft.rfft(x)) ** 2 / R
    k = np.arange(1, (N - 1) // 2 + 1)
    lg = np.log(S[k]) - al * np.log(k + 1.0)
    # normalisation to the exact deviation couples the lines slightly
    if N >= 33:
        lo, hi = np.mean(lg[: len(lg) // 2]), np.mean(lg[len(lg) // 2:])
        tol = 8 * np.sqrt(4.0 / (R * len(lg))) + 3 * abs(al) / N + 3.0 / N * (abs(al) > 0) * 3
        expect(abs(lo - hi) <= tol, f"spectral slope differs: {lo - hi:.3g} beyond {tol:.3g}")


@law("C25", gen.fd(N=gen.sizes(2, 12, 40, 120), col=colour(), std=STD, default=st.integers(0, 4)), quick=700,
     nontrivial=lambda c: c["N"] >= 5, classify=lambda c: [f"colour={c['col']}"])
def power_law_acf_is_an_autocovariance(c):
    """starts with std^2, positive semi-definite, transform of the power law"""
    N, al = c["N"], alpha_of(c["col"])
    kw = {} if c["default"] == 0 else {"std": c["std"]}
    std = kw.get("std", 1.0)
    R = arr(F().power_law_acf(N, color_value=c["col"], **kw), (N,), "autocovariance")
    expect(abs(R[0] - std ** 2) <= 1e-12 * std ** 2, f"variance {R[0]} instead of {std ** 2}")
    from scipy.linalg import toeplitz

    symmetric_psd(toeplitz(R), "Toeplitz matrix of the autocovariance")
    if al == 0:
        expect(np.all(np.abs(R[1:]) <= 1e-12 * std ** 2), "white noise is correlated")
    elif N >= 3:
        expect(R[1] * al < 0, f"lag one covariance {R[1]} for exponent {al}")
    if N >= 8:
        k = np.arange(N)
        wgt = np.where((k == 0) | (k == N - 1), 1.0, 2.0) * (k + 1.0) ** al
        want = np.array([np.sum(wgt * np.cos(np.pi * k * m / (N - 1))) for m in range(N)])
        close(R, std ** 2 * want / want[0], "autocovariance", rtol=2.0 * abs(al) / (N - 1) + 1e-9,
              scale=std ** 2)


@law("C25", gen.fd(t=st.text(max_size=8), v=colour(), o=st.sampled_from(["none", "list", "array"])),
     quick=200)
def colours_are_translated(c):
    """documented colours and plain numbers; anything else is rejected"""
    g = F().get_alpha
    a = g(c["v"])
    expect(isinstance(a, float) and a == alpha_of(c["v"]), f"alpha {a!r} for {c['v']!r}")
    if c["t"] not in COL:
        raises(lambda: g(c["t"]), NotImplementedError, "get_alpha")
        raises(lambda: F().power_law_noise(N=8, color_value=c["t"]), NotImplementedError, "power_law_noise")
        raises(lambda: F().power_law_acf(8, color_value=c["t"]), NotImplementedError, "power_law_acf")
    raises(lambda: g({"none": None, "list": [1], "array": np.ones(2)}[c["o"]]), IOError, "get_alpha")


# ------------------------------------------------------------------ corr_noise
def cn():
    return gen.fd(w=st.one_of(gen.nice(0.0, 1.5), gen.nice(-1.0, 0.0)), sigma=STD, seed=gen.seeds(), N=gen.sizes(2, 12, 25))


def kernel4(w):
    k = np.ones(1)
    for _ in range(4):
        k = np.convolve(k, [1.0, w])
    return k


def autocov_of(k, sigma, lags):
    """autocovariance of white noise through the normalised kernel"""
    k = k / np.sqrt(np.sum(k ** 2))
    return sigma ** 2 * np.array([np.sum(k[: len(k) - m] * k[m:]) if m < len(k) else 0.0
                                  for m in range(lags)])


def bartlett(x, c, what):
    """sample autocovariance against the theoretical one (8 standard errors)"""
    n = len(x)
    K = len(c)
    full = np.concatenate([c[::-1], c[1:]])
    for k in range(min(K, 9)):
        g = np.mean(x[: n - k] * x[k:])
        sh = np.concatenate([np.zeros(2 * k), full])[: len(full)] * full if k else full ** 2
        var = (np.sum(full ** 2) + np.sum(sh)) / (n - k)
        expect(abs(g - c[k]) <= 8 * np.sqrt(var), f"{what}: autocovariance {g:.4g} at lag {k}, "
                                                  f"expected {c[k]:.4g} +- {np.sqrt(var):.2g}")


@law("C25", cn(), quick=300, nontrivial=lambda c: c["w"] != 0 and c["N"] >= 3)
def covariance_of_correlated_noise(c):
    """calc_cov is the Toeplitz matrix of the moving average and positive semi-definite"""
    from scipy.linalg import toeplitz

    o = T().corr_noise(c["w"], c["sigma"], seed=c["seed"])
    x = arr(o.calc_noise(c["N"]), (c["N"],), "noise")
    C = symmetric_psd(o.calc_cov(), "covariance", n=c["N"])
    ac = autocov_of(kernel4(c["w"]), c["sigma"], c["N"])
    close(C, toeplitz(ac), "covariance", rtol=1e-10, scale=c["sigma"] ** 2)
    o2 = T().corr_noise(c["w"], c["sigma"], seed=c["seed"])
    expect(np.array_equal(arr(o2.calc_noise(c["N"])), x), "equal seeds give different noise")
    o3 = T().corr_noise(c["w"], 2.0 * c["sigma"], seed=c["seed"])
    close(o3.calc_noise(c["N"]), 2 * x, "doubled level", rtol=1e-12)
    o2.calc_noise(c["N"] + 1)
    expect(arr(o2.calc_cov()).shape == (c["N"] + 1,) * 2, "covariance does not follow the last noise")


@law("C25", cn(), quick=160, nontrivial=lambda c: c["w"] != 0)
def correlated_noise_has_its_covariance(c):
    """sample autocovariance of calc_noise and calc_noise2; sample correlation; periodogram"""
    o = T().corr_noise(c["w"], c["sigma"], seed=c["seed"])
    s = float(c["sigma"])
    n = 3000
    x = arr(o.calc_noise(n), (n,), "noise") / s
    ac = autocov_of(kernel4(c["w"]), 1.0, 16)
    bartlett(x, ac, "calc_noise")
    r = arr(o.calc_autocorr(5), (5,), "sample correlation")
    for k in range(1, 5):
        a, b = x[:-k] - np.mean(x[:-k]), x[k:] - np.mean(x[k:])
        want = np.sum(a * b) / np.sqrt(np.sum(a * a) * np.sum(b * b))
        expect(abs(r[k] - want) <= 1e-9, f"sample correlation at lag {k}")
    expect(r[0] == 1, "correlation at lag zero")
    f, P = unpack(o.calc_psd(Fs=10.0), 2)
    f, P = arr(f), arr(P)
    expect(abs(np.sum(P) * (f[1] - f[0]) - np.var(x * s)) <= 1e-9 * np.var(x * s), "power of the periodogram")
    y = arr(o.calc_noise2(n), (n,), "noise of the second kind") / s
    k = np.ones(1)
    for _ in range(5):
        k = np.convolve(k, [c["w"], 1.0, c["w"]])
    bartlett(y[20:], autocov_of(k, 1.0, 24), "calc_noise2")
