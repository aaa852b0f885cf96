"""C28: signal objects through histories of operations (model-based)."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, close, enlarge, expect, law, raises, unpack
from .c13 import recursion

RULE = "history of at least two operations on a signal of at least 4 samples with a non-zero uncertainty; distinct by generated case"
TECHNIQUE = "model-based property testing (Hypothesis): random histories of constructor forms, filters (FIR/IIR, certain/uncertain, analytic/Monte Carlo) and plots against a reference model of values and covariance"


def S(*a, **k):
    from PyDynamic.signals import Signal

    return Signal(*a, **k)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def base():
    return gen.fd(n=gen.sizes(2, 12, 30), x=gen.vspec(), dt=st.sampled_from([1.0, 0.1, 1e-4, 0.37, 3.0, 2.5e-7, 2e-9, 4e5]),
                  t0=st.sampled_from([0.0, -5.0, 100.0, -1e4]), samp=st.sampled_from(["none", "Ts", "Fs", "both"]),
                  unc=st.sampled_from(["none", "float", "int", "vec", "col", "row", "mat", "mat", "zero", "npint", "np32", "list", "matlist"]),
                  u=gen.uspec(), U=gen.cspec(), intx=st.integers(0, 4), kw=st.booleans())


def op():
    return gen.fd(op=st.sampled_from(["fir", "fir", "firU", "firU", "firmc", "firUmc", "iir", "iirU", "plot", "labels"]),
                  s=gen.seeds(), m=st.integers(1, 6), p=st.integers(1, 3), U=gen.cspec(), lst=st.booleans(),
                  runs=st.sampled_from([40, 90]))


def construct(c):
    n = c["n"]
    t = c["t0"] * c["dt"] + np.arange(n) * c["dt"]
    x = gen.vec(c["x"], n)
    if c["intx"] == 0:
        x = np.random.RandomState(c["x"]["s"]).randint(-9, 10, n)
    kw = {}
    if c["samp"] in ("Ts", "both"):
        kw["Ts"] = c["dt"]
    if c["samp"] in ("Fs", "both"):
        kw["Fs"] = 1.0 / c["dt"]
    f = c["unc"]
    u = gen.uvec(c["u"], n)
    U = u.copy()
    if f == "float":
        kw["uncertainty"], U = 0.25, np.full(n, 0.25)
    elif f == "int":
        kw["uncertainty"], U = 2, np.full(n, 2.0)
    elif f == "npint":
        kw["uncertainty"], U = np.int64(2), np.full(n, 2.0)
    elif f == "np32":
        kw["uncertainty"], U = np.float32(0.25), np.full(n, 0.25)
    elif f == "vec":
        kw["uncertainty"] = u
    elif f == "list":
        kw["uncertainty"] = u.tolist()
    elif f == "matlist":
        U = gen.cov(c["U"], n)
        kw["uncertainty"] = U.tolist()
    elif f == "col":
        kw["uncertainty"] = u[:, None]
    elif f == "row":
        kw["uncertainty"] = u[None, :]
    elif f == "mat":
        U = gen.cov(c["U"], n)
        kw["uncertainty"] = U.copy()
    elif f == "zero":
        kw["uncertainty"], U = 0.0, np.zeros(n)
    else:
        U = np.zeros(n)
    s = S(time=t, values=x, **kw) if c["kw"] else S(t, x, **kw)
    return s, t, x, U


def check_state(s, t, values, U, dt, scale=None, uscale=None, rtol=1e-9):
    n = len(t)
    close(s.time, t, "time axis", rtol=0)
    close(s.values, values, "values", rtol=rtol, scale=scale)
    if np.ndim(U) == 1:
        g = arr(s.uncertainty, (n,), "uncertainty")
        expect(np.all(g >= 0), "negative uncertainty")
        close(g ** 2, U ** 2, "uncertainty (squared)", rtol=rtol, scale=uscale)
    else:
        close(s.uncertainty, U, "covariance", rtol=rtol, scale=uscale)
    expect(hasattr(s, "Ts") and hasattr(s, "Fs"), "sampling interval or frequency is not set")
    expect(abs(s.Ts - dt) <= 1e-6 * dt and abs(s.Fs * s.Ts - 1) <= 1e-6,
           f"sampling interval {s.Ts}, frequency {s.Fs} for spacing {dt}")


def full(U):
    return np.diag(U ** 2) if np.ndim(U) == 1 else U


def fir_mc(x, C, b, Ut):
    """exact mean and covariance of the FIR filter output with zero past"""
    n, m = len(x), len(b)
    X = ref.lag_matrix(np.asarray(x, float), m)
    T = np.array([[b[i - j] if 0 <= i - j < m else 0.0 for j in range(n)] for i in range(n)])
    V = T.dot(C).dot(T.T) + X.dot(Ut).dot(X.T)
    for k in range(m):
        for l in range(m):
            if Ut[k, l]:
                D = np.zeros((n, n))
                if k < n and l < n:
                    D[k:, l:] = C[: n - k, : n - l]
                V += Ut[k, l] * D
    return X.dot(b), V


def apply(s, o, x, U, bands=True):
    """one operation on the object and on the model; returns the new model state"""
    from PyDynamic.uncertainty.propagate_MonteCarlo import MC

    r = np.random.RandomState(o["s"])
    n = len(x)
    k = o["op"]
    if k == "labels":
        s.set_labels(unit_time="ms", name_values="force")
        expect(s.unit_time == "ms" and s.name == "force" and s.unit_values == "a.u.", "labels")
        s.set_labels()
        expect(s.unit_time == "s" and s.name == "signal", "labels")
        return x, U
    if k == "plot":
        return x, U
    m = o["m"]
    b = r.randn(m)
    sc = np.sum(np.abs(b)) * np.max(np.abs(x))
    usc = np.sum(np.abs(b)) ** 2 * np.max(np.abs(full(U)))
    if k in ("fir", "firU"):
        Ut = None
        kw = {}
        if k == "firU":
            Ut = gen.cov(dict(o["U"], a=0.1), m)
            kw["filter_uncertainty"] = Ut.copy()
            usc += np.max(np.abs(Ut)) * (m * m * np.max(np.abs(x)) ** 2 + m * m * np.max(np.abs(full(U))))
        y, Uy = ref.fir_ref(x, b, full(U), Ut)
        ret = s.apply_filter(b, **kw) if not o["lst"] else s.apply_filter(b, 1, **kw)
        expect(ret is None, "a value is returned")
        if np.ndim(U) == 1:
            Uy = np.sqrt(np.maximum(np.diag(Uy), 0))
        return y, Uy, sc, usc
    # Monte Carlo
    if np.ndim(U) == 2:
        # the analytical filter continues a non-stationary full covariance into the past,
        # which need not be a covariance any more; Monte Carlo has to be given one
        e = np.linalg.eigvalsh((U + U.T) / 2)
        if e[0] < -1e-12 * max(e[-1], 1e-300):
            return x, U
    x0, U0 = np.array(s.values), np.array(s.uncertainty)
    a = np.ones(1)
    if k in ("iir", "iirU"):
        a = gen.stable_poly(o["s"], o["p"], 0.7)
    q = m + len(a) - 1
    certain = k in ("iir", "firmc")
    Uab = np.zeros((q, q)) if certain else gen.cov(dict(o["U"], a=0.02), q)
    kw = {} if certain else {"filter_uncertainty": Uab.copy()}
    seed = o["s"]
    np.random.seed(seed)
    with quiet():
        if k.startswith("iir"):
            s.apply_filter(b, a.tolist() if o["lst"] else a, MonteCarloRuns=o["runs"], **kw)
        else:
            s.apply_filter(b, MonteCarloRuns=o["runs"], **kw)
        np.random.seed(seed)
        y, Uy = unpack(MC(x0, U0, b, a, Uab, runs=o["runs"], verbose=False), 2)
    close(s.values, arr(y, (n,)), "Monte Carlo values of the signal", rtol=1e-10)
    close(s.uncertainty, arr(Uy, (n, n)), "Monte Carlo covariance of the signal", rtol=1e-9)
    if k != "iirU":  # independent exact moments
        if k == "iir":
            T = np.array([recursion(b, a, np.eye(n)[j]) for j in range(n)]).T
            mu, V = T.dot(x0), T.dot(full(U0)).dot(T.T)
        else:
            mu, V = fir_mc(x0, full(U0), b, Uab)
        v = np.maximum(np.diag(V), 0)
        N = o["runs"]
        d = np.abs(arr(s.values) - mu)
        expect(np.all(d <= 10 * np.sqrt(v / N) + 1e-9 * (sc + np.max(np.abs(mu)))),
               f"Monte Carlo mean deviates by {np.max(d / np.sqrt(v + 1e-300))} standard uncertainties")
        kurt = 1.0 if certain else 3.0
        # nothing is random where the variance vanishes; elsewhere the sample variance
        tot = np.mean(v)
        got = np.mean(np.diag(arr(s.uncertainty)))
        expect(abs(got - tot) <= 12 * kurt * tot * np.sqrt(2.0 / N) + 1e-12 * sc ** 2,
               f"mean Monte Carlo variance {got} instead of {tot}")
    return np.array(s.values), np.array(s.uncertainty), None, None


@law("C28", gen.fd(c=base(), ops=st.lists(op(), min_size=0, max_size=4)), quick=480,
     nontrivial=lambda k: k["c"]["n"] >= 4 and len(k["ops"]) >= 2 and k["c"]["unc"] not in ("none", "zero"),
     classify=lambda k: ["op=" + o["op"] for o in k["ops"]] + ["unc=" + k["c"]["unc"], "sampling=" + k["c"]["samp"]])
def history_agrees_with_the_reference_model(k):
    """after every operation: values, uncertainty, time axis and sampling parameters equal
    those of the model"""
    c = k["c"]
    s, t, x, U = construct(c)
    t0, x0 = t.copy(), np.array(x)
    check_state(s, t, x, U, c["dt"])
    xm, Um = np.array(x, float), U
    for o in k["ops"]:
        if not np.all(np.isfinite(xm)) or np.max(np.abs(xm)) > 1e8:
            break
        res = apply(s, o, xm, Um)
        if len(res) == 2:
            xm, Um = res
            sc = usc = None
        else:
            xm, Um, sc, usc = res
        check_state(s, t0, xm, Um, c["dt"], sc, usc, rtol=1e-8)
    expect(np.array_equal(x, x0) and np.array_equal(t, t0), "data given to the constructor were changed")


@law("C28", base(), quick=500, nontrivial=lambda c: c["n"] >= 4, classify=lambda c: ["unc=" + c["unc"]])
def equivalent_uncertainty_descriptions(c):
    """the same uncertainty as float, vector or matrix gives the same filtered signal and
    the same standard uncertainties"""
    s, t, x, U = construct(c)
    if np.ndim(U) == 2:
        U = np.sqrt(np.diag(U))
    r = np.random.RandomState(c["x"]["s"])
    b = r.randn(r.randint(1, 6))
    Ut = gen.cov(c["U"], len(b)) if r.rand() < 0.5 else None
    forms = [U, U[:, None], np.diag(U ** 2)]
    if np.all(U == U[0]):
        forms.append(float(U[0]))
    out = []
    for f in forms:
        z = S(t, x, uncertainty=f)
        z.apply_filter(b, filter_uncertainty=Ut)
        u = arr(z.uncertainty)
        out.append((arr(z.values, (len(t),)), u if u.ndim == 1 else np.sqrt(np.maximum(np.diag(u), 0))))
    usc = np.sum(np.abs(b)) ** 2 * np.max(U ** 2)
    if Ut is not None:
        usc += len(b) ** 2 * np.max(np.abs(Ut)) * (np.max(np.abs(x)) ** 2 + np.max(U ** 2))
    for y, u in out[1:]:
        close(y, out[0][0], "values", rtol=1e-10, scale=np.sum(np.abs(b)) * np.max(np.abs(x)))
        close(u ** 2, out[0][1] ** 2, "squared standard uncertainties", rtol=1e-9, scale=usc)


@law("C28", gen.fd(c=base(), d=st.sampled_from([-1, 1, 2]), e=st.sampled_from([1.01, 0.9, 2.0]),
                   what=st.sampled_from(["values", "vec", "mat", "mat2", "multi", "rate"])),
     quick=400, nontrivial=lambda k: k["c"]["n"] >= 4, classify=lambda k: ["wrong=" + k["what"]])
def inconsistent_signals_are_rejected(k):
    """wrong lengths, wrong sizes of the covariance, contradicting sampling parameters and
    multivariate data are refused"""
    c = k["c"]
    s, t, x, U = construct(dict(c, n=max(4, c["n"])))
    n, m = len(t), len(t) + k["d"]
    calls = {"values": lambda: S(t, np.ones(m)),
             "vec": lambda: S(t, x, uncertainty=np.ones(m)),
             "mat": lambda: S(t, x, uncertainty=np.eye(m)),
             "mat2": lambda: S(t, x, uncertainty=np.ones((n, m)) if m > 1 else np.ones((n, 2))),
             "multi": lambda: S(t, np.ones((n, 2))),
             "rate": lambda: S(t, x, Ts=c["dt"], Fs=k["e"] / c["dt"])}
    raises(calls[k["what"]], (AssertionError, ValueError, NotImplementedError), "Signal with wrong " + k["what"])
    if k["what"] == "rate":
        z = S(t, x, Ts=c["dt"], Fs=(1 + 1e-7) / c["dt"])
        expect(abs(getattr(z, "Ts", 0) * getattr(z, "Fs", 0) - 1) < 1e-5, "nearly consistent sampling parameters")


@law("C28", gen.fd(c=base(), m=st.integers(1, 4), s=gen.seeds(), p=st.integers(1, 2)), quick=4, thorough=30,
     nontrivial=lambda k: k["c"]["n"] >= 4)
def recursive_filters_default_to_monte_carlo(k):
    """without a number of runs a recursive filter uses a sufficient number of runs"""
    c = dict(k["c"], n=min(k["c"]["n"], 8))
    if c["unc"] in ("none", "zero"):
        c["unc"] = "float"
    s, t, x, U = construct(c)
    r = np.random.RandomState(k["s"])
    b, a = r.randn(k["m"]), gen.stable_poly(k["s"], k["p"], 0.7)
    np.random.seed(k["s"])
    with quiet():
        s.apply_filter(b, a)
    n = len(t)
    T = np.array([recursion(b, a, np.eye(n)[j]) for j in range(n)]).T
    mu, V = T.dot(x), T.dot(full(U)).dot(T.T)
    v = np.diag(V)
    N = 2000  # at least
    expect(np.all(np.abs(arr(s.values, (n,)) - mu) <= 10 * np.sqrt(v / N) + 1e-9 * np.max(np.abs(mu))), "mean values")
    g = arr(s.uncertainty, (n, n), "covariance")
    tol = 10 * np.sqrt((np.outer(v, v) + V ** 2) / N) + 1e-12 * np.max(v)
    expect(np.all(np.abs(g - V) <= tol), f"covariance deviates: {np.max(np.abs(g - V) / tol)} bands")


@law("C28", gen.fd(c=base(), f=st.booleans(), s=gen.seeds()), quick=16, thorough=150,
     nontrivial=lambda k: k["c"]["n"] >= 4)
def plots_show_the_signal(k):
    """plotted lines and band are values and standard uncertainties; the signal is unchanged"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    c = k["c"]
    s, t, x, U = construct(c)
    if k["f"]:
        s.apply_filter(np.array([0.5, 0.3]))
    v, u = np.array(s.values, float), np.array(s.uncertainty, float)
    su = u if u.ndim == 1 else np.sqrt(np.maximum(np.diag(u), 0))
    try:
        s.plot(fignr=11)
        ax = plt.figure(11).gca()
        xy = arr(ax.lines[0].get_xydata())
        close(xy, np.c_[t, v], "plotted values", rtol=1e-12)
        ys = arr(ax.collections[0].get_paths()[0].vertices)[:, 1]
        close([np.min(ys), np.max(ys)], [np.min(v - su), np.max(v + su)], "plotted band", rtol=1e-9)
        s.plot_uncertainty(fignr=12)
        xy = arr(plt.figure(12).gca().lines[0].get_xydata())
        close(xy, np.c_[t, su], "plotted uncertainty", rtol=1e-12)
    finally:
        plt.close("all")
    expect(np.array_equal(v, s.values) and np.array_equal(u, s.uncertainty), "plot changed the signal")


enlarge(history_agrees_with_the_reference_model, 16, c__n=gen.large(30, 130))
