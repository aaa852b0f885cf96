"""C12: resampling to an equidistant axis."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, close_el, enlarge, expect, law, raises, unpack
from .c10 import I, grid, gridspec, tolerance, weights

RULE = "at least 3 input samples and at least 3 resampled times; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): axis invariants, explicit reference interpolation and a round trip"
KINDS = ["linear", "linear", "previous", "next", "nearest"]


def case():
    return gen.fd(n=gen.sizes(2, 8, 30), t=gridspec(), kind=st.sampled_from(KINDS),
                  y=gen.vspec(wide=True), u=gen.uspec(wide=True), dt=gen.nice(0.02, 2.5, 500),
                  exact=st.integers(0, 4), lists=st.booleans(), intt=st.integers(0, 5), default=st.integers(0, 9))


def build(c):
    n = c["n"]
    t = grid(c["t"], n)
    span = t[-1] - t[0]
    if c["exact"] == 0:  # the step divides the span (nearly) exactly
        dt = span / max(1, round(span / (c["dt"] * span / n)))
    elif c["exact"] == 1:
        dt = span / np.random.RandomState(c["t"]["s"]).randint(1, 40)
    else:
        dt = c["dt"] * span / n
    y, u = gen.vec(c["y"], n), gen.uvec(c["u"], n)
    if c["intt"] == 0:  # integer time stamps, the step is in general not an integer
        t = np.cumsum(np.random.RandomState(c["t"]["s"]).randint(1, 6, n)) - 7
        dt = c["dt"] * (t[-1] - t[0]) / n
        if c["y"]["k"] == "int":
            y = np.random.RandomState(c["y"]["s"]).randint(-50, 50, n)
    return t, y, u, float(dt)


def nt(c):
    return c["n"] >= 3


def cls(c):
    return [f"kind={c['kind']}", f"grid={c['t']['k']}"]


@law("C12", case(), quick=2000, nontrivial=nt, classify=cls)
def axis_and_values(c):
    """axis starts at the first time, has the step, stays inside and leaves less than a
    step uncovered; values and uncertainties are interpolation at these times"""
    t, y, u, dt = build(c)
    kw = {}
    if c["default"] == 0 and (t[-1] - t[0]) / 0.05 < 2000:
        dt = 0.05
    else:
        kw["dt"] = dt
    if not (c["kind"] == "linear" and c["default"] == 1):
        kw["kind"] = c["kind"]
    a = (t.tolist(), y.tolist(), u.tolist()) if c["lists"] else (t, y, u)
    tn, yn, un = unpack(I().make_equidistant(*a, **kw), 3)
    tn = arr(tn, None, "times")
    expect(tn.ndim == 1 and len(tn) >= 1, "no resampled times")
    eps = 1e-11 * dt + 8 * 2.3e-16 * (np.max(np.abs(t)) + dt) * len(tn)
    expect(tn[0] == t[0], f"starts at {tn[0]!r}, not at {t[0]!r}")
    expect(np.all(tn <= t[-1]), "leaves the input range")
    expect(t[-1] - tn[-1] <= dt + eps, f"range not covered: ends at {tn[-1]!r} of {t[-1]!r}")
    close(tn, t[0] + dt * np.arange(len(tn)), "times", rtol=0, atol=eps)
    if c["kind"] == "nearest":
        keep = np.array([np.sum(np.abs(np.abs(t - x) - np.min(np.abs(t - x)))
                                <= 1e-9 * (t[-1] - t[0])) == 1 for x in tn])
    else:
        keep = np.ones(len(tn), bool)
    W = weights(t, tn, c["kind"])
    rt = tolerance(t, W)
    wy, wu = W.dot(y), np.sqrt((W ** 2).dot(u ** 2))
    yn, un = arr(yn, tn.shape, "values"), arr(un, tn.shape, "uncertainties")
    if c["kind"] != "linear":
        expect(np.array_equal(yn[keep], wy[keep]), "value is not that of interpolation")
        close_el(un[keep], wu[keep], "uncertainty is not that of interpolation", rtol=1e-15)
    else:
        close_el(yn, wy, "values", atol=rt * (np.abs(W) > 0).dot(np.abs(y)))
        close_el(un, wu, "uncertainties", atol=rt * (np.abs(W) > 0).dot(u))
    ref = unpack(I().interp1d_unc(tn, t, y, u, c["kind"]), 3)
    expect(np.array_equal(yn, arr(ref[1])) and np.array_equal(un, arr(ref[2])),
           "differs from interpolation at the same times")


@law("C12", gen.fd(n=gen.sizes(3, 12, 60), t0=gen.nice(-10, 10), p=st.integers(-6, 4),
                   kind=st.sampled_from(KINDS), y=gen.vspec(wide=True), u=gen.uspec(wide=True)),
     quick=600, nontrivial=nt)
def equidistant_data_are_reproduced(c):
    """data sampled with the (binary) step are returned unchanged up to the last sample"""
    n, dt = c["n"], 2.0 ** c["p"]
    t = np.floor(c["t0"]) * dt + dt * np.arange(n)  # exact in binary floating point
    y, u = gen.vec(c["y"], n), gen.uvec(c["u"], n)
    tn, yn, un = unpack(I().make_equidistant(t, y, u, dt, c["kind"]), 3)
    m = len(arr(tn))
    expect(n - 1 <= m <= n, f"{m} samples of {n}")
    expect(np.array_equal(arr(tn), t[:m]), "times changed")
    close_el(yn, y[:m], "values", rtol=1e-14, atol=1e-15 * np.max(np.abs(y)))
    close_el(un, u[:m], "uncertainties", rtol=1e-14)
    # non-binary step: the same up to rounding of the axis
    dt = 0.1 * 3 ** c["p"]
    t = c["t0"] * dt + dt * np.arange(n)
    tn, yn, un = unpack(I().make_equidistant(t, y, u, dt, "linear"), 3)
    m = len(arr(tn))
    expect(n - 1 <= m <= n, f"{m} samples of {n}")
    close(tn, t[:m], "times", atol=1e-12 * np.max(np.abs(t)), rtol=0)
    close_el(yn, y[:m], "values", rtol=1e-9, atol=1e-9 * np.max(np.abs(y)))
    close_el(un, u[:m], "uncertainties", rtol=1e-9, atol=1e-9 * np.max(u))


@law("C12", gen.fd(n=gen.sizes(3, 12, 40), t=gridspec(), y=gen.vspec(wide=True),
                   u=gen.uspec(wide=True), dt=gen.nice(0.05, 2.5, 500),
                   kind=st.sampled_from(KINDS)), quick=300, nontrivial=nt)
def package_level_and_deprecated_names_agree(c):
    """make_equidistant at package level and in the former module are the same"""
    import PyDynamic
    import PyDynamic.misc.tools as old

    n = c["n"]
    t, y, u = grid(c["t"], n), gen.vec(c["y"], n), gen.uvec(c["u"], n)
    dt = c["dt"] * (t[-1] - t[0]) / n
    a = unpack(I().make_equidistant(t, y, u, dt, c["kind"]), 3)
    for f in (PyDynamic.make_equidistant, old.make_equidistant):
        b = unpack(f(t, y, u, dt, c["kind"]), 3)
        for p, q in zip(a, b):
            expect(np.array_equal(arr(p), arr(q)), f"{f.__module__} differs")


enlarge(axis_and_values, 40, n=gen.large(30, 1200))
enlarge(equidistant_data_are_reproduced, 24, n=gen.large(60, 2000))
