"""C09: validity, scaling and monotonicity of reported uncertainties."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, registry as R
from ..core import arr, close, expect, law, probe, symmetric_psd, unpack
from ..inputs import covm, fir_noise, grid, polar_cart, signal, stable, unc
from .c04 import D

RULE = "a call whose covariance result has at least two rows (chains: at least two steps); distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): algebraic invariants (finite, symmetric, positive semi-definite, real non-negative) over random calls of all functions and random chains of them, scaling and monotonicity as metamorphic relations"

WITH_COV = [n for n in R.names(max_cost=2)
            if R.FUNCS[n].covs.__name__ != "none" or R.FUNCS[n].stds.__name__ != "none"]


def sizes_of(a):
    return max([np.size(v) for v in a.values() if isinstance(v, np.ndarray)] or [0])


@law("C09", gen.fd(f=st.sampled_from(WITH_COV), s=gen.seeds()), quick=2600,
     classify=lambda c: [c["f"]])
def reported_uncertainties_are_valid(c):
    """covariances finite, symmetric, positive semi-definite; standard uncertainties real
    and non-negative"""
    f = R.FUNCS[c["f"]]
    a = f.args(np.random.RandomState(c["s"]))
    np.random.seed(c["s"])
    out = R.call(f.get(), f.sig, a)
    for what, U in f.covs(out, a):
        U = np.atleast_2d(arr(U, None, what))
        symmetric_psd(U, f"{c['f']}: {what}")
    for what, u in f.stds(out, a):
        u = arr(u, None, f"{c['f']}: {what}")
        expect(np.all(u >= 0), f"{c['f']}: negative {what}")


# ----------------------------------------------------------------- chains
def even_signal(r):
    n = 2 * r.randint(2, 6)
    return "T", (r.randn(n) + np.r_[4.0, np.zeros(n - 1)], covm(r, n, float, GOOD))


GOOD = ("ident", "diag", "full", "rank1", "rank2", "ar", "diagz", "spiky", "graded")


def steps(kind):
    return {"T": ["dft", "dft", "dftw", "polar", "conv", "conv", "shift", "interp", "mc"],
            "F": ["idft", "polar", "deconv", "mult", "multc"],
            "P": ["cart", "time"]}[kind]


def small(z):
    return np.min(z) < 1e-3 * np.max(z)


def step(kind, v, name, r):
    """one propagation; returns kind, values (None: amplitude too small for polar form)"""
    from PyDynamic.misc.tools import shift_uncertainty
    from PyDynamic.uncertainty.interpolate import interp1d_unc
    from PyDynamic.uncertainty.propagate_convolution import convolve_unc
    from PyDynamic.uncertainty.propagate_MonteCarlo import MC

    if kind == "T":
        x, U = v
        n = len(x)
        if name == "dft":
            return "F", unpack(D().GUM_DFT(x, U), 2)
        if name == "dftw":
            return "F", unpack(D().GUM_DFT(x, U, window=np.hamming(n)), 2)
        if name == "polar":
            if small(np.abs(np.fft.rfft(x))):
                return kind, v
            return "P", unpack(D().Time2AmpPhase(x, U), 3)
        if name == "conv":
            m = r.randint(1, n + 1)
            return "T", unpack(convolve_unc(x, U, r.randn(m), covm(r, m, float, GOOD), "same"), 2)
        if name == "shift":
            return "T", unpack(shift_uncertainty(x, U, r.randint(-3, 4)), 2)
        if name == "mc":
            return "T", unpack(MC(x, U, r.randn(2), np.array([1.0, -0.4]), np.eye(3) * 1e-4, runs=20,
                                  verbose=False), 2)
        t = np.arange(n) * 1.0
        q = np.sort(r.uniform(0, n - 1, n))
        _, y, u = unpack(interp1d_unc(q, t, x, np.sqrt(np.abs(np.diag(U)))), 3)
        return "T", (y, np.diag(np.asarray(u) ** 2))
    if kind == "F":
        F, U = v
        M = len(F) // 2
        if name == "idft":
            return "T", unpack(D().GUM_iDFT(F, U), 2)
        if name == "polar":
            if small(np.hypot(F[:M], F[M:])):
                return kind, v
            return "P", unpack(D().DFT2AmpPhase(F, U), 3)
        H = polar_cart(r, M)[2]
        V = covm(r, 2 * M, float, GOOD)
        if name == "deconv":
            return "F", unpack(D().DFT_deconv(H, F, V, U), 2)
        if name == "mult":
            return "F", unpack(D().DFT_multiply(F, H, U, V), 2)
        return "F", unpack(D().DFT_multiply(F, H, U), 2)
    A, P, U = v
    if name == "cart":
        return "F", unpack(D().AmpPhase2DFT(A, P, U), 2)
    return "T", unpack(D().AmpPhase2Time(A, P, U), 2)


@law("C09", gen.fd(s=gen.seeds(), ops=st.lists(st.integers(0, 8), min_size=1, max_size=7)), quick=900,
     nontrivial=lambda c: len(c["ops"]) >= 2, classify=lambda c: [f"length={len(c['ops'])}"])
def chains_of_propagations_stay_valid(c):
    """after every step of a random chain time <-> frequency <-> polar, filter, shift,
    interpolation, Monte Carlo, the covariance is valid"""
    r = np.random.RandomState(c["s"])
    np.random.seed(c["s"])
    kind, v = even_signal(r)
    for k in c["ops"]:
        names = steps(kind)
        name = names[k % len(names)]
        kind, v = step(kind, v, name, r)
        val = np.concatenate([arr(z) for z in v[:-1]])
        U = symmetric_psd(v[-1], f"covariance after {name}", n=len(val))
        v = tuple(arr(z) for z in v[:-1]) + (U,)
        if np.max(np.abs(val)) > 1e9 or np.max(np.abs(U)) > 1e15:
            break


# ----------------------------------------------------------------- linear propagations
def linear_case(r, name):
    """(f(value, unc) -> value, uncertainty; value; uncertainty; 'cov', 'std' or 'var')"""
    from PyDynamic.uncertainty.interpolate import interp1d_unc, make_equidistant
    from PyDynamic.uncertainty.propagate_convolution import convolve_unc
    from PyDynamic.uncertainty.propagate_filter import FIRuncFilter, IIRuncFilter

    n, m = r.randint(2, 10), r.randint(1, 5)
    b = r.randn(m)
    if name == "fir":
        Ut = R.pick(r, None, covm(r, m, float))
        s, kind = fir_noise(r, n)
        form = "std" if kind == "diag" or np.ndim(s) == 0 else "cov"
        full = bool(r.rand() < 0.5)

        def f(x, u):
            y, U = unpack(FIRuncFilter(x, u, b, Utheta=Ut, kind=kind, return_full_covariance=full), 2)
            return y, U if full else np.diag(arr(U) ** 2)
        return f, r.randn(n), s, form
    if name == "iir":
        a = stable(r, m)
        Uab = covm(r, 2 * m + 1, float) * 1e-2

        def f(x, u):
            y, U = unpack(IIRuncFilter(x, u, np.r_[b, 0.5], a, Uab), 2)
            return y, np.diag(arr(U) ** 2)
        return f, r.randn(n), R.pick(r, 0.4, unc(r, n)), "std"
    if name == "conv":
        V = R.pick(r, None, covm(r, m, float))
        mode = R.pick(r, "full", "same", "nearest", "reflect")
        return lambda x, U: unpack(convolve_unc(x, U, b, V, mode), 2), r.randn(n), covm(r, n, float), "cov"
    if name == "conv2":
        V = R.pick(r, None, covm(r, m, float))
        return lambda x, U: unpack(convolve_unc(b, V, x, U, "full"), 2), r.randn(n), covm(r, n, float), "cov"
    if name == "dft":
        kw = R.pick(r, {}, {"window": r.rand(n)}, {"N": n + 3}, {"window": r.rand(n), "N": n + 4})
        form = R.pick(r, "cov", "var")
        return (lambda x, U: unpack(D().GUM_DFT(x, U, **kw), 2), r.randn(n),
                covm(r, n, float) if form == "cov" else unc(r, n) ** 2, form)
    if name == "idft":
        form = R.pick(r, "cov", "var")
        return (lambda x, U: unpack(D().GUM_iDFT(x, U), 2), r.randn(2 * n),
                covm(r, 2 * n, float) if form == "cov" else unc(r, 2 * n) ** 2, form)
    if name == "mult":
        H, V = polar_cart(r, n)[2], R.pick(r, None, covm(r, 2 * n, float))
        return lambda x, U: unpack(D().DFT_multiply(x, H, U, V), 2), r.randn(2 * n), covm(r, 2 * n, float), "cov"
    if name == "deconv":
        H, V = polar_cart(r, n)[2], covm(r, 2 * n, float)
        return lambda x, U: unpack(D().DFT_deconv(H, x, V, U), 2), r.randn(2 * n), covm(r, 2 * n, float), "cov"
    t = grid(r, n)
    if name == "equi":
        dt = (t[-1] - t[0]) / r.uniform(1, 9)

        def f(x, u):
            _, y, v = unpack(make_equidistant(t, x, u, dt), 3)
            return y, np.diag(arr(v) ** 2)
        return f, r.randn(n), unc(r, n), "std"
    q = np.sort(r.uniform(t[0], t[-1], m + 2))
    kind = R.pick(r, "linear", "previous", "next", "nearest")

    def f(x, u):
        _, y, v = unpack(interp1d_unc(q, t, x, u, kind=kind), 3)
        return y, np.diag(arr(v) ** 2)
    return f, r.randn(n), unc(r, n), "std"


LINEAR = ["fir", "fir", "iir", "conv", "conv2", "dft", "idft", "mult", "deconv", "equi", "interp"]


def square(U):
    U = arr(U)
    return np.diag(U) if U.ndim == 1 else U


@law("C09", gen.fd(f=st.sampled_from(LINEAR), s=gen.seeds(), c=st.sampled_from([2.0, -1.0, -3.7, 1e-6, 1e4, 0.0])),
     quick=1200, classify=lambda c: [c["f"]])
def results_scale_with_the_input(c):
    """input times c with its standard uncertainty times |c|: values times c, covariance
    times c^2"""
    r = np.random.RandomState(c["s"])
    f, x, u, form = linear_case(r, c["f"])
    k = c["c"]
    y, U = f(x, u)
    y2, U2 = f(k * x, (abs(k) if form == "std" else k * k) * u)
    y, U = arr(y), square(U)
    close(y2, k * y, "scaled values", rtol=1e-9, scale=abs(k) * np.max(np.abs(x)))
    close(square(U2), k * k * U, "scaled covariance", rtol=1e-8)


@law("C09", gen.fd(f=st.sampled_from(LINEAR), s=gen.seeds(), c=st.sampled_from([1e-3, 1.0, 30.0])),
     quick=1200, classify=lambda c: [c["f"]])
def more_input_uncertainty_never_reduces_the_output_variance(c):
    """adding a covariance to the input: output values unchanged, no output variance smaller"""
    r = np.random.RandomState(c["s"])
    f, x, u, form = linear_case(r, c["f"])
    n = np.size(u) if np.ndim(u) else 1
    if form == "std":
        v = np.sqrt(np.asarray(u) ** 2 + (c["c"] * unc(r, n) if np.ndim(u) else c["c"]) ** 2)
    elif form == "var":
        v = u + c["c"] * unc(r, n)
    elif np.ndim(u) == 1:  # autocovariance: add white noise or another autocovariance
        v = u + c["c"] * np.r_[1.0, np.zeros(len(u) - 1)]
    elif c["f"] == "fir":
        v = u + c["c"] * np.eye(len(u))
    else:
        v = u + c["c"] * covm(r, len(u), float)
    y, U = f(x, u)
    y2, U2 = f(x, v)
    close(y2, arr(y), "values", rtol=1e-10, scale=np.max(np.abs(x)))
    d1, d2 = np.diag(square(U)), np.diag(square(U2))
    expect(np.all(d2 >= d1 - 1e-9 * np.max(np.abs(d2), initial=0.0)),
           f"an output variance fell by {np.max(d1 - d2)} although uncertainty was added")


@probe("fir-past-of-full-covariance")
def full_covariance_continued_into_the_past():
    """the covariance continued into the past before the first sample is not a covariance"""
    from PyDynamic.uncertainty import FIRuncFilter

    U = np.array([[1.0, 0.9], [0.9, 1.0]])
    _, Uy = FIRuncFilter(np.ones(2), U, np.array([1.0, -1.3, 1.0]), return_full_covariance=True)
    d = np.diag(np.asarray(Uy))
    if np.min(d) < 0:
        return (f"FIRuncFilter reports the variances {d.tolist()} for the valid input covariance "
                f"[[1, 0.9], [0.9, 1]] and the filter [1, -1.3, 1]")
    return None
