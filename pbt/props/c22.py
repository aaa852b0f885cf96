"""C22: descriptions of second-order systems."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, enlarge, expect, law, symmetric_psd, unpack

RULE = "at least 2 frequencies and (for uncertainty laws) at least one non-zero parameter uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): closed-form oracle, differential check against scipy.signal.freqs, Monte Carlo results against analytic linear propagation in a band of 8 standard errors, degenerate uncertainties"


def F():
    from PyDynamic.misc import SecondOrderSystem

    return SecondOrderSystem


def pars():
    return gen.fd(S=gen.nice(0.05, 20), amp=st.sampled_from([1.0, 1.0, 1.0, 1e-5, 1e5]), neg=st.integers(0, 4),
                  d=st.sampled_from([0.01, 0.02, 0.05, 0.1, 0.3, 0.7, 1.0, 2.0]),
                  f0=st.sampled_from([0.5, 1.0, 10.0, 36.0, 1e3, 2.5e4, 1e5, 1e-3, 3e6]),
                  j=gen.seeds(),
                  n=gen.sizes(1, 6, 15, 40), fk=st.sampled_from(["rand", "lin", "log", "int", "zero",
                                                               "desc"]))


def case():
    return gen.fd(p=pars(), K=gen.sizes(1, 5, 20))


def build(p):
    r = np.random.RandomState(p["j"])
    S = p["S"] * p["amp"] * (-1 if p["neg"] == 0 else 1)
    d = p["d"] * r.uniform(0.9, 1.1)
    f0 = p["f0"] * r.uniform(0.7, 1.3)
    n = p["n"]
    k = p["fk"]
    if k == "rand":
        f = r.uniform(0.0, 3 * f0, n)
    elif k == "lin":
        f = np.linspace(0, r.uniform(0.5, 3) * f0, n)
    elif k == "log":
        f = f0 * np.logspace(-2, 1, n)
    elif k == "int":
        f = np.arange(n)
    elif k == "zero":
        f = np.r_[0.0, r.uniform(0.1, 1.5, n - 1) * f0]
    else:
        f = np.sort(r.uniform(0.1, 2, n) * f0)[::-1].copy()
    return S, d, f0, f


def H_ref(S, d, f0, f):
    w0, w = 2 * np.pi * f0, 2 * np.pi * np.asarray(f, float)
    return S * w0 ** 2 / (w0 ** 2 - w ** 2 + 2j * d * w0 * w)


def sens(S, d, f0, f):
    """complex derivatives with respect to S, d, f0: shape (n, 3)"""
    w0, w = 2 * np.pi * f0, 2 * np.pi * np.asarray(f, float)
    D = w0 ** 2 - w ** 2 + 2j * d * w0 * w
    H = S * w0 ** 2 / D
    return np.c_[H / S, -H * 2j * w0 * w / D,
                 2 * np.pi * (2 * S * w0 / D - H * (2 * w0 + 2j * d * w) / D)]


def nt(c):
    return c["p"]["n"] >= 2


def cls(c):
    return [f"freqs={c['p']['fk']}", f"d={c['p']['d']}"]


@law("C22", case(), quick=1000, nontrivial=nt, classify=cls)
def frequency_response_is_the_closed_form(c):
    """scalar and vector parameters; every column of a vector call is the scalar call"""
    S, d, f0, f = build(c["p"])
    H = H_ref(S, d, f0, f)
    got = arr(F().sos_FreqResp(S, d, f0, f), H.shape, "H", complex_ok=True)
    expect(np.all(np.abs(got - H) <= 1e-10 * np.abs(H) / min(d, 1)), "frequency response differs")
    K = c["K"]
    r = np.random.RandomState(c["p"]["j"] + 1)
    Sv, dv, fv = (v * r.uniform(0.8, 1.2, K) for v in (S, d, f0))
    M = arr(F().sos_FreqResp(Sv, dv, fv, f), (len(f), K), "H of vectors", complex_ok=True)
    for k in range(K):
        Hk = H_ref(Sv[k], dv[k], fv[k], f)
        expect(np.all(np.abs(M[:, k] - Hk) <= 1e-9 * np.abs(Hk) / min(d, 1)),
               f"column {k} of the vector call differs from the formula")


@law("C22", case(), quick=700, nontrivial=nt, classify=cls)
def filter_coefficients_give_the_same_response(c):
    """b/a on the imaginary axis equals the frequency response; static gain b/a at 0"""
    from scipy.signal import freqs

    S, d, f0, f = build(c["p"])
    b, a = unpack(F().sos_phys2filter(S, d, f0), 2)
    b, a = arr(b, (1,), "b"), arr(a, (3,), "a")
    _, H = freqs(b, a, 2 * np.pi * np.asarray(f, float))
    want = H_ref(S, d, f0, f)
    expect(np.all(np.abs(H - want) <= 1e-9 * np.abs(want) / min(d, 1)), "coefficients and response differ")
    expect(a[0] == 1, "denominator is not monic")
    K = c["K"]
    r = np.random.RandomState(c["p"]["j"] + 2)
    Sv, dv, fv = (v * r.uniform(0.8, 1.2, K) for v in (S, d, f0))
    bv, av = unpack(F().sos_phys2filter(Sv, dv, fv), 2)
    bv, av = arr(bv, (1, K), "b of vectors"), arr(av, (K, 3), "a of vectors")
    for k in range(K):
        b1, a1 = unpack(F().sos_phys2filter(float(Sv[k]), float(dv[k]), float(fv[k])), 2)
        close(bv[:, k], arr(b1), "numerator of a set", rtol=1e-13)
        close(av[k], arr(a1), "denominator of a set", rtol=1e-13)


def ucase():
    return gen.fd(p=pars(), u=st.lists(st.sampled_from([0.0, 1.0, 0.3, 1.0, 0.1]), min_size=3, max_size=3),
                  rel=st.sampled_from([1e-3, 1e-4, 1e-6]), runs=st.sampled_from([None, 4000, 1e4, 2000]),
                  seed=gen.seeds())


def unc(c):
    S, d, f0, f = build(c["p"])
    # keep the relative change of H small near the resonance
    rel = c["rel"] * min(1.0, 2 * d)
    uS, ud, uf = (u * rel for u in c["u"])
    return S, d, f0, f, uS * abs(S), ud * d, uf * f0


def check_mc(c, fn, jac, extra_H):
    S, d, f0, f, uS, ud, uf0 = unc(c)
    H = H_ref(S, d, f0, f)
    kw = {} if c["runs"] is None else {"runs": c["runs"]}
    N = int(c["runs"] or 10000)
    np.random.seed(c["seed"])
    mean, C = unpack(fn(S, d, f0, uS, ud, uf0, f, **kw), 2)
    n = len(f)
    mean = arr(mean, (n,), "mean response", complex_ok=True)
    C = symmetric_psd(C, "covariance", n=2 * n)
    Jc = sens(S, d, f0, f) * np.array([uS, ud, uf0])
    s = np.sqrt(np.sum(np.abs(Jc) ** 2, axis=1))
    rel = c["rel"] * 4
    lim = 8 * s / np.sqrt(N) + 20 * rel * s + 1e-12 * np.abs(H) / min(d, 1)
    expect(np.all(np.abs(mean - H) <= lim), "mean response is not the response of the mean parameters")
    J = jac(H, Jc)
    want = J.dot(J.T)
    v = np.diag(want)
    # parts of the sensitivity which vanish at first order keep a second-order part
    m2 = np.r_[s, s] if extra_H is None else extra_H(H, s)
    v2 = np.sqrt(v) + 10 * rel * m2
    tol = 8 * np.sqrt((np.outer(v, v) + want ** 2) / N) + 30 * rel * np.outer(m2, m2) \
        + (2 / np.sqrt(N)) * (np.outer(v2, v2) - np.outer(np.sqrt(v), np.sqrt(v)))
    hm = np.r_[np.abs(H), np.abs(H)] if extra_H is None else np.r_[np.abs(H), np.full(n, 4.0)]
    e = 1e-13 * hm
    tol = tol + np.outer(e, m2 + e) + np.outer(m2, e)
    bad = np.abs(C - want) > tol
    if np.any(bad):
        i, j = np.argwhere(bad)[0]
        expect(False, f"covariance entry ({i},{j}) is {C[i, j]:.6g}, linear propagation gives "
                      f"{want[i, j]:.6g} (band {tol[i, j]:.3g})")


def ntu(c):
    return c["p"]["n"] >= 2 and any(c["u"])


@law("C22", ucase(), quick=500, nontrivial=ntu, classify=cls)
def real_imag_uncertainty_is_linear_propagation(c):
    """GUM S2 covariance of Re and Im for small parameter uncertainties"""
    check_mc(c, F().sos_realimag, lambda H, Jc: np.vstack([Jc.real, Jc.imag]), None)


@law("C22", ucase(), quick=500, nontrivial=ntu, classify=cls)
def amplitude_phase_uncertainty_is_linear_propagation(c):
    """GUM S2 covariance of |H| and arg H for small parameter uncertainties"""
    def jac(H, Jc):
        g = np.conj(H)[:, None] * Jc
        return np.vstack([g.real / np.abs(H)[:, None], g.imag / np.abs(H)[:, None] ** 2])

    check_mc(c, F().sos_absphase, jac, lambda H, s: np.r_[s, s / np.abs(H)])


@law("C22", ucase(), quick=300, nontrivial=nt)
def no_parameter_uncertainty_no_response_uncertainty(c):
    """zero uncertainties: exact response, zero covariance, in both forms"""
    S, d, f0, f, *_ = unc(c)
    H = H_ref(S, d, f0, f)
    for fn, hm in ((F().sos_realimag, np.r_[np.abs(H), np.abs(H)]),
                   (F().sos_absphase, np.r_[np.abs(H), np.full(len(f), 4.0)])):
        mean, C = unpack(fn(S, d, f0, 0.0, 0.0, 0.0, f, runs=200), 2)
        mean = arr(mean, H.shape, "mean", complex_ok=True)
        expect(np.all(np.abs(mean - H) <= 1e-9 * np.abs(H) / min(d, 1)), "mean of a certain system differs")
        C = arr(C, (2 * len(f),) * 2, "covariance")
        expect(np.all(np.abs(C) <= 1e-24 * np.outer(hm, hm)), "covariance of a certain system is not zero")


enlarge(frequency_response_is_the_closed_form, 24, K=gen.large(20, 2000))
