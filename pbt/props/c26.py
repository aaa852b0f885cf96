"""C26: test signals."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, enlarge, expect, law, raises

RULE = "at least 8 time samples and an amplitude other than zero; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): closed formulas evaluated sample by sample, metamorphic relations (shift, tiling, superposition), noise statistics in bands of 8 standard errors"


def F():
    from PyDynamic.misc import testsignals

    return testsignals


def axis():
    return gen.fd(n=gen.sizes(2, 15, 60, 400), dt=st.sampled_from([1.0, 0.1, 1e-3, 1e-6, 0.37]),
                  t0=st.sampled_from([0.0, 0.0, 0.0, 5.0, -3.5, 1000.0]), form=st.sampled_from(
                      ["equi", "equi", "random", "int"]), s=gen.seeds())


def times(a):
    r = np.random.RandomState(a["s"])
    n = a["n"]
    if a["form"] == "int":
        return np.arange(n) + int(a["t0"])
    t = np.arange(n) * a["dt"]
    if a["form"] == "random":
        t = np.cumsum(r.uniform(0.3, 1.5, n)) * a["dt"]
    return t + a["t0"] * a["dt"]


def case():
    return gen.fd(a=axis(), pos=gen.nice(-0.3, 1.3), width=gen.nice(0.02, 0.8), m0=st.sampled_from(
        [1.0, 2.5, -1.5, 1e-3, 1e4, 3]), k=gen.seeds(), call=st.integers(0, 3))


def nt(c):
    return c["a"]["n"] >= 8


def cls(c):
    return ["axis=" + c["a"]["form"], f"start={c['a']['t0']}"]


def span(t):
    return float(t[-1] - t[0])


@law("C26", case(), quick=700, nontrivial=nt, classify=cls)
def gaussian_and_shock_formulas(c):
    """bell of height m0 and standard deviation sigma at t0; shock-like pulse with extrema
    +-m0 at t0 -+ sigma"""
    t = times(c["a"])
    t0, sg, m0 = t[0] + c["pos"] * span(t), c["width"] * span(t), c["m0"]
    kw = [{}, {"noise": 0.0}, {"noise": 0}, {}][c["call"]]
    u = (t - t0) / sg
    tc = t.copy()
    close(F().GaussianPulse(t, t0, m0, sg, **kw), m0 * np.exp(-u ** 2 / 2), "Gaussian pulse",
          rtol=1e-9, scale=abs(m0))
    close(F().shocklikeGaussian(t, t0, m0, sg, **kw), -m0 * u * np.exp(0.5 - u ** 2 / 2), "shock",
          rtol=1e-9, scale=abs(m0))
    expect(np.array_equal(t, tc), "time axis was changed")
    q = t0 + sg * np.array([-1.0, 0.0, 1.0])
    g = arr(F().GaussianPulse(q, t0, m0, sg), (3,))
    expect(np.allclose(g, m0 * np.array([np.exp(-0.5), 1, np.exp(-0.5)]), rtol=1e-6, atol=1e-9 * abs(m0)),
           f"peak height, position or width: {g}")
    s = arr(F().shocklikeGaussian(q, t0, m0, sg), (3,))
    expect(np.allclose(s, [m0, 0, -m0], rtol=1e-6, atol=1e-6 * abs(m0)), f"extrema of the shock: {s}")
    fine = t0 + sg * np.linspace(-6, 6, 241)
    s = arr(F().shocklikeGaussian(fine, t0, m0, sg), (241,))
    expect(np.max(np.abs(s)) <= abs(m0) * (1 + 1e-9), "shock exceeds its maximum")


@law("C26", case(), quick=700, nontrivial=nt, classify=cls)
def rectangles(c):
    """height on (t0, t1], zero elsewhere; adjacent rectangles tile; own noise is added"""
    t = times(c["a"])
    r = np.random.RandomState(c["k"])
    e = np.sort(t[0] + span(t) * r.uniform(-0.2, 1.2, 3))
    if r.rand() < 0.5:  # edges on samples
        i = np.sort(r.randint(0, len(t), 3))
        e = t[i].astype(float)
    h = c["m0"]
    args = (h,) if c["call"] % 2 else ()
    hh = h if args else 1
    rect = F().rect
    x = close(rect(t, e[0], e[1], *args), np.where((t > e[0]) & (t <= e[1]), hh, 0.0), "rectangle", rtol=0)
    y = arr(rect(t, e[1], e[2], *args), (len(t),))
    close(rect(t, e[0], e[2], *args), x + y, "adjacent rectangles", rtol=1e-15)
    nz = r.randn(len(t))
    close(rect(t, e[0], e[1], h, noise=nz), np.where((t > e[0]) & (t <= e[1]), h, 0.0) + nz,
          "rectangle with own noise", rtol=1e-12)
    raises(lambda: rect(t, e[0], e[1], h, noise=np.ones(len(t) + 1)), ValueError, "rect, wrong noise size")
    raises(lambda: rect(t, e[0], e[1], h, noise="0.1"), NotImplementedError, "rect, wrong noise type")


@law("C26", gen.fd(c=case(), m=st.integers(1, 6)), quick=700, nontrivial=lambda k: nt(k["c"]),
     classify=lambda k: cls(k["c"]))
def square_pulses_are_equally_spaced(k):
    """numpulse pulses of the same height and width, separated and surrounded by gaps of
    that width, on the whole time axis"""
    c = k["c"]
    t = times(c["a"])
    h, m = c["m0"], k["m"]
    kw = {} if m == 4 and c["call"] % 2 else {"numpulse": m}
    x = arr(F().squarepulse(t, h, **kw), (len(t),), "square pulses")
    ph = (t - t[0]) / (span(t) / (2 * m + 1))
    near = np.abs(ph - np.round(ph)) < 1e-6
    want = np.where(np.floor(ph).astype(int) % 2 == 1, h, 0.0)
    close(x[~near], want[~near], "square pulses", rtol=1e-12)
    expect(np.all((np.abs(x) < 1e-12 * abs(h)) | (np.abs(x - h) < 1e-12 * abs(h)) ), "values other than zero and height")
    fine = np.linspace(t[0], t[-1], 60 * (2 * m + 1) + 7)
    f = arr(F().squarepulse(fine, h, m), fine.shape)
    on = np.abs(f) > abs(h) / 2
    expect(np.sum(~on[:-1] & on[1:]) == m and not on[0] and not on[-1], "number of pulses")


@law("C26", gen.fd(c=case(), per=gen.nice(0.05, 3), m=st.integers(0, 5), intf=st.booleans()), quick=700,
     nontrivial=lambda k: nt(k["c"]), classify=lambda k: cls(k["c"]))
def sines(k):
    """amp sin(2 pi t / freq) (as pinned by the existing tests); the multi-sine is the sum of
    amp sin(freq t) (angular frequencies), so it is additive in its components"""
    c = k["c"]
    t = times(c["a"])
    T = k["per"] * span(t)
    A = c["m0"]
    close(F().sine(t, amp=A, freq=T), A * np.sin(2 * np.pi * t / T), "sine", rtol=1e-7, scale=abs(A))
    close(F().sine(t), np.sin(t), "default sine", rtol=1e-9, scale=1 + np.max(np.abs(t)) * 1e-6)
    r = np.random.RandomState(c["k"])
    m = k["m"]
    amps = r.randint(-3, 4, m) if k["intf"] else r.randn(m)
    fr = 2 * np.pi / (span(t) * r.uniform(0.05, 3, m)) if m else np.zeros(0)
    if c["call"] % 2:
        amps, fr = [float(v) for v in amps], [float(v) for v in fr]
    x = F().multi_sine(t, amps, fr)
    want = np.zeros(len(t))
    for a_, f_ in zip(amps, fr):
        want = want + a_ * np.sin(f_ * t)
    close(x, want, "multi-sine", rtol=1e-8, scale=np.sum(np.abs(amps)) if m else 1)
    y = arr(F().multi_sine(t, list(amps) + [0.7], list(fr) + [2.0 / span(t)], noise=0.0), (len(t),))
    close(y - arr(x), 0.7 * np.sin(2.0 / span(t) * t), "additional component", rtol=1e-7,
          scale=np.sum(np.abs(amps)) + 1)


@law("C26", gen.fd(fn=st.sampled_from(["GaussianPulse", "shocklikeGaussian", "rect", "squarepulse",
                                       "sine", "multi_sine"]), c=case(), noise=st.sampled_from(
                                           [0.1, 1.0, 3.5, 1e-3, 2]), seed=gen.seeds(),
                   n=st.sampled_from([600, 1500, 3001])), quick=500, nontrivial=lambda k: True,
     classify=lambda k: ["generator=" + k["fn"]])
def noise_is_white_with_the_requested_deviation(k):
    """difference to the noise-free signal: zero mean, requested deviation, uncorrelated;
    reproducible; without noise no random numbers are used by single-signal generators"""
    c = k["c"]
    a = dict(c["a"], n=k["n"])
    if a["form"] == "int":
        a["form"] = "equi"
    t = times(a)
    mid, w = t[0] + 0.4 * span(t), 0.2 * span(t)
    args = {"GaussianPulse": (mid, 1.5, w), "shocklikeGaussian": (mid, 1.5, w), "rect": (mid, mid + w, 1.5),
            "squarepulse": (1.5, 3), "sine": (1.5, w), "multi_sine": ([1.0, 0.5], [3 / w, 9 / w])}[k["fn"]]
    fn = getattr(F(), k["fn"])
    s = float(k["noise"])
    noise = s if k["fn"] == "rect" else k["noise"]
    np.random.seed(k["seed"])
    st0 = np.random.get_state()
    x0 = arr(fn(t, *args), t.shape, "signal")
    st1 = np.random.get_state()
    x0b = arr(fn(t, *args), t.shape)
    expect(np.array_equal(x0, x0b), "signal without noise is not deterministic")
    if k["fn"] != "multi_sine":
        expect(np.array_equal(st0[1], st1[1]) and st0[2] == st1[2], "random numbers used without noise")
    np.random.seed(k["seed"])
    x = arr(fn(t, *args, noise=noise), t.shape, "noisy signal")
    np.random.seed(k["seed"])
    expect(np.array_equal(arr(fn(t, *args, noise=noise)), x), "equal seeds give different noise")
    e = (x - x0) / s
    n = len(e)
    expect(abs(np.mean(e)) <= 8 / np.sqrt(n), f"mean of the noise {np.mean(e)}")
    expect(abs(np.mean(e ** 2) - 1) <= 8 * np.sqrt(2.0 / n), f"variance ratio of the noise {np.mean(e ** 2)}")
    for j in (1, 2, 3):
        expect(abs(np.mean(e[:-j] * e[j:])) <= 8 / np.sqrt(n - j), f"noise correlated at lag {j}")
    h = n // 3
    for part in (e[:h], e[h:2 * h], e[2 * h:]):
        expect(abs(np.mean(part ** 2) - 1) <= 8 * np.sqrt(2.0 / len(part)), "noise level varies along the signal")


enlarge(gaussian_and_shock_formulas, 24, a__n=gen.large(60, 3000))
enlarge(rectangles, 24, a__n=gen.large(60, 3000))
enlarge(square_pulses_are_equally_spaced, 24, c__a__n=gen.large(60, 3000))
enlarge(sines, 24, c__a__n=gen.large(60, 3000))
