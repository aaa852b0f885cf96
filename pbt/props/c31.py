"""C31: rejection of inconsistent input, acceptance of the valid neighbours."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from .. import gen, inputs as I, registry as R
from ..core import law, raises

RULE = "a valid call and at least one inconsistent neighbour of it; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): metamorphic boundary testing, a random valid call has to be accepted and the same call with one argument made inconsistent by a generated amount has to be rejected"

ANY = Exception
CASES = {}


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def entry(*names):
    def deco(fn):
        for n in names:
            CASES[n] = (fn, n)
        return fn
    return deco


def other(r, n, lo=1, hi=None):
    """a length different from n, small and large mismatches, length 1 (would broadcast)"""
    while True:
        k = (n + 1, n - 1, 1, n + r.randint(1, 6), max(lo, n - r.randint(1, 6)), 2 * n)[r.randint(0, 6)]
        if k != n and k >= lo and (hi is None or k <= hi):
            return int(k)


def mat_shapes(r, n):
    """shapes which are no covariance of n values (2-D)"""
    k = other(r, n)
    return [(k, k), (n, k), (k, n)]


def rnd(r, shape):
    return r.randn(*shape) if isinstance(shape, tuple) else r.randn(shape)


def fun(name):
    return R.FUNCS[name].get()


# Every entry yields (label, function, args, kwargs, exception or None): None means the call
# is valid and has to be accepted.
@entry("GUM_DFT")
def _(r):
    f = fun("GUM_DFT")
    n = r.randint(2, 14)
    x = r.randn(n)
    Ux = (0.3, I.unc(r, n) ** 2, I.covm(r, n))[r.randint(0, 3)]
    for N in (n, n + 1, n + r.randint(1, 9)):
        yield f"N={N} for {n} values", f, (x, Ux), dict(N=N), None
    for N in {n - 1, r.randint(1, n)}:
        yield f"N={N} for {n} values", f, (x, Ux), dict(N=int(N)), ValueError
    yield "window of equal length", f, (x, Ux), dict(window=1 + r.rand(n)), None
    k = other(r, n)
    yield f"window of length {k} for {n} values", f, (x, Ux), dict(window=1 + r.rand(k)), ANY
    w = np.ones(n)
    for sh in mat_shapes(r, n):
        yield f"window and covariance of shape {sh} for {n} values", f, (x, rnd(r, sh)), dict(window=w), ANY
    k = other(r, n)
    yield f"window and {k} variances for {n} values", f, (x, r.rand(k)), dict(window=w), ANY


@entry("GUM_iDFT")
def _(r):
    f = fun("GUM_iDFT")
    n = 2 * r.randint(1, 8)
    F, UF = r.randn(n + 2), I.covm(r, n + 2)
    for Nx in (None, n, max(1, n - 1), int(r.randint(1, n + 1))):
        yield f"Nx={Nx} for {n} values", f, (F, UF), dict(Nx=Nx), None
    for Nx in (n + 1, n + 2, n + int(r.randint(1, 9))):
        yield f"Nx={Nx} for {n} values", f, (F, UF), dict(Nx=Nx), ValueError


@entry("AmpPhase2DFT")
def _(r):
    f = fun("AmpPhase2DFT")
    M = r.randint(1, 9)
    A, P, U = np.abs(r.randn(M)), r.randn(M), I.covm(r, 2 * M)
    forms = [("full", U, {}), ("diagonal", np.diag(U).copy(), {})]
    if M > 1:
        d = np.diag(U)
        forms.append(("sparse", sparse.diags([d, np.zeros(M), np.zeros(M)], [0, M, -M]), {}))
    for nm, u, kw in forms:
        yield nm, f, (A, P, u), kw, None
    nm, u, kw = forms[r.randint(0, len(forms))]
    k = other(r, M)
    yield f"{M} amplitudes, {k} phases", f, (A, r.randn(k), u), {}, ValueError
    yield "amplitudes as a column", f, (A[:, None], P, u), {}, ValueError
    yield "amplitudes and phases as a row", f, (A[None, :], P[None, :], u), {}, ValueError
    k = other(r, 2 * M)
    yield f"{k} variances for {M} values", f, (A, P, r.rand(k)), {}, ValueError
    for sh in mat_shapes(r, 2 * M):
        yield f"covariance {sh} for {M} values", f, (A, P, rnd(r, sh)), {}, ValueError


@entry("AmpPhase2Time")
def _(r):
    f = fun("AmpPhase2Time")
    M = r.randint(2, 9)
    A, P, U = np.abs(r.randn(M)), r.randn(M), I.covm(r, 2 * M)
    yield "valid", f, (A, P, U), {}, None
    k = other(r, M)
    yield f"{M} amplitudes, {k} phases", f, (A, r.randn(k), U), {}, ValueError
    yield f"{k} amplitudes, {M} phases", f, (np.abs(r.randn(k)), P, U), {}, ValueError
    for k in (2 * M + 1, 2 * M - 1, 2 * M + 1 + 2 * int(r.randint(0, 4))):
        yield f"covariance of odd dimension {k}", f, (A, P, I.covm(r, k)), {}, ValueError


@entry("DFT_deconv")
def _(r):
    f = fun("DFT_deconv")
    n = 2 * r.randint(1, 8)
    H, Y = 0.5 + r.rand(n), r.randn(n)
    UH, UY = [(I.unc(r, n), I.covm(r, n))[r.randint(0, 2)] for _ in "ab"]
    yield "valid", f, (H, Y, UH, UY), {}, None
    k = other(r, n)
    yield f"H of length {n}, Y of length {k}", f, (H, r.randn(k), UH, UY), {}, ValueError
    yield f"H of length {k}, Y of length {n}", f, (0.5 + r.rand(k), Y, UH, UY), {}, ValueError
    k = other(r, n)
    yield f"UY of length {k} for {n}", f, (H, Y, UH, r.rand(k)), {}, ValueError
    yield f"UH of length {k} for {n}", f, (H, Y, r.rand(k), UY), {}, ValueError
    for sh in mat_shapes(r, n):
        yield f"UY of shape {sh} for {n}", f, (H, Y, UH, rnd(r, sh)), {}, ValueError
        yield f"UH of shape {sh} for {n}", f, (H, Y, rnd(r, sh), UY), {}, ValueError
    k = n + 1
    yield f"odd number {k} of rows", f, (np.ones(k), np.ones(k), np.eye(k), np.eye(k)), {}, ValueError


@entry("DFT_multiply")
def _(r):
    f = fun("DFT_multiply")
    n = 2 * r.randint(1, 8)
    Y, F = r.randn(n), r.randn(n)
    UY = (I.unc(r, n), I.covm(r, n), 0.4)[r.randint(0, 3)]
    UF = (None, I.covm(r, n))[r.randint(0, 2)]
    kw = {} if UF is None else dict(UF=UF)
    yield "valid", f, (Y, F, UY), kw, None
    k = other(r, n)
    yield f"Y of length {n}, F of length {k}", f, (Y, r.randn(k), UY), kw, ValueError
    k = other(r, n)
    yield f"Y of length {k}, F of length {n}", f, (r.randn(k), F, UY), kw, ValueError


@entry("Time2AmpPhase_multi")
def _(r):
    f = fun("Time2AmpPhase_multi")
    M, n = r.randint(1, 5), 2 * r.randint(2, 6)
    x = r.randn(M, n)
    yield "valid", f, (x, 0.1 + r.rand(M)), {}, None
    k = other(r, M)
    yield f"{k} uncertainties for {M} signals", f, (x, 0.1 + r.rand(k)), {}, ANY


@entry("FIRuncFilter")
def _(r):
    f = fun("FIRuncFilter")
    n, m = r.randint(1, 12), r.randint(1, 6)
    y, th = r.randn(n), r.randn(m)
    full = bool(r.randint(0, 2))
    kw = dict(return_full_covariance=full)
    if r.rand() < 0.5:
        kw["Utheta"] = (I.unc(r, m), I.covm(r, m))[r.randint(0, 2)]
    if r.rand() < 0.3:
        kw["blow"] = r.randn(r.randint(1, 4))
    u = I.unc(r, n)
    c = np.r_[1.0, np.zeros(n - 1)]
    yield "diag", f, (y, u, th), dict(kw, kind="diag"), None
    yield "corr", f, (y, c, th), dict(kw, kind="corr"), None
    yield "float", f, (y, 0.3, th), kw, None
    bad = ("foo", "full", "Diag", "CORR", "", None, "autocorr")[r.randint(0, 7)]
    yield f"kind={bad!r}", f, (y, u, th), dict(kw, kind=bad), ANY
    typ = ("0.1", [0.1] * n, (0.1,) * n, {"u": 0.1})[r.randint(0, 4)]
    yield f"noise of type {type(typ).__name__}", f, (y, typ, th), kw, ANY


@entry("_fir_filter")
def _(r):
    from PyDynamic.uncertainty import propagate_filter as pf
    n, m = r.randint(1, 10), r.randint(1, 6)
    x, th = r.randn(n), r.randn(m)
    diag = bool(r.randint(0, 2))
    f = pf._fir_filter_diag if diag else pf._fir_filter
    a = (x, th) + ((I.unc(r, n), I.unc(r, m)) if diag else (I.covm(r, n), I.covm(r, m)))
    for ic in ("constant", "zero"):
        yield ic, f, a, dict(initial_conditions=ic), None
    bad = ("Constant", "zeros", "", None, "edge", "const", 0)[r.randint(0, 7)]
    yield f"initial_conditions={bad!r}", f, a, dict(initial_conditions=bad), ANY


MODES = ["full", "valid", "same", "nearest", "reflect", "mirror"]


@entry("convolve_unc")
def _(r):
    f = fun("convolve_unc")
    n, m = r.randint(2, 10), r.randint(1, 6)
    a = (r.randn(n), I.covm(r, n), r.randn(m), I.covm(r, m))
    mode = MODES[r.randint(0, 6)]
    yield mode, f, a, dict(mode=mode), None
    bad = ("wrap", "constant", "Full", "", None, "edge", "symmetric", "foo")[r.randint(0, 8)]
    yield f"mode={bad!r}", f, a, dict(mode=bad), ANY


@entry("interp1d_unc", "interp1d_unc 2")
def _(r):
    f = fun("interp1d_unc")
    n = r.randint(2, 10)
    t = I.grid(r, n)
    y, uy = r.randn(n), I.unc(r, n)
    sort = r.rand() < 0.5
    if not sort:
        p = r.permutation(n)
        t, y, uy = t[p], y[p], uy[p]
    kw = dict(assume_sorted=sort)
    lo, hi = t.min(), t.max()
    tn = lo + (hi - lo) * r.rand(r.randint(1, 7))
    C = bool(r.randint(0, 2))
    yield "linear", f, (tn, t, y, uy), dict(kw, kind="linear", returnC=C), None
    look = ("previous", "next", "nearest")[r.randint(0, 3)]
    yield look, f, (tn, t, y, uy), dict(kw, kind=look), None
    yield f"{look} with sensitivities", f, (tn, t, y, uy), dict(kw, kind=look, returnC=True), NotImplementedError
    if n >= 4:
        bad = ("cubic", "quadratic", "slinear", "zero")[r.randint(0, 4)]
        yield f"kind={bad}", f, (tn, t, y, uy), dict(kw, kind=bad, returnC=C), NotImplementedError
    kind = ("linear", look)[r.randint(0, 2)]
    k = other(r, n)
    yield f"{k} uncertainties for {n} values", f, (tn, t, y, r.rand(k)), dict(kw, kind=kind, bounds_error=(None, False)[r.randint(0, 2)]), ANY
    k = other(r, n)
    yield f"{k} values for {n} times", f, (tn, t, r.randn(k), r.rand(k)), dict(kw, kind=kind), ANY
    # bounds
    out = hi + (hi - lo) * (1e-6, 0.1, 3.0)[r.randint(0, 3)]
    if r.rand() < 0.5:
        out = lo - (out - hi)
    bad_t = np.r_[tn, out][r.permutation(len(tn) + 1)]
    edge = np.r_[lo, tn, hi]
    yield "at the bounds", f, (edge, t, y, uy), dict(kw, kind=kind), None
    for k2 in (dict(), dict(bounds_error=True)):
        yield "outside of the bounds", f, (bad_t, t, y, uy), dict(kw, kind=kind, **k2), ValueError
    yield "outside, bounds_error=False", f, (bad_t, t, y, uy), dict(kw, kind=kind, bounds_error=False), None
    yield "outside, extrapolation", f, (bad_t, t, y, uy), dict(
        kw, kind=kind, bounds_error=False, fill_value="extrapolate", fill_unc="extrapolate"), None
    yield "sensitivities of custom uncertainties", f, (bad_t, t, y, uy), dict(
        kw, kind="linear", bounds_error=False, fill_value=0.0, fill_unc=1.0, returnC=True), NotImplementedError
    yield "sensitivities of the extrapolation", f, (bad_t, t, y, uy), dict(
        kw, kind="linear", bounds_error=False, fill_value="extrapolate", fill_unc="extrapolate", returnC=True), None


@entry("MC")
def _(r):
    f = fun("MC")
    n = r.randint(2, 10)
    x, b, a = r.randn(n), np.array([1.0, 0.3]), np.array([1.0, -0.4])
    Uab = np.eye(3) * 1e-8
    kw = dict(runs=5, verbose=False)
    for u in (0.3, I.unc(r, n), np.eye(n)):
        yield "valid", f, (x, u, b, a, Uab), kw, None
    u = ("0.1", [0.1] * n, None, (0.1,))[r.randint(0, 4)]
    yield f"noise of type {type(u).__name__}", f, (x, u, b, a, Uab), kw, ANY
    k = other(r, n, lo=2)
    yield f"{k} uncertainties for {n} values", f, (x, r.rand(k), b, a, Uab), kw, ANY
    for sh in mat_shapes(r, n):
        k = sh[0] if sh[0] != n else sh[1]
        if k > 1:
            yield f"covariance {sh} for {n} values", f, (x, np.eye(*sh), b, a, Uab), kw, ANY


@entry("Normal_ZeroCorr")
def _(r):
    from PyDynamic.uncertainty.propagate_MonteCarlo import Normal_ZeroCorr as f
    n = r.randint(2, 9)
    loc, sc = r.randn(n), r.rand(n)
    yield "equal lengths", f, (), dict(loc=loc, scale=sc), None
    yield "one location", f, (), dict(loc=0.5, scale=sc), None
    yield "one scale", f, (), dict(loc=loc, scale=2.0), None
    yield "arrays of one element", f, (), dict(loc=loc, scale=np.array([2.0])), None
    k = other(r, n, lo=2)
    yield f"{n} locations, {k} scales", f, (), dict(loc=loc, scale=r.rand(k)), ANY
    yield "two scalars", f, (), dict(loc=0.5, scale=1.0), ANY
    yield "two lists", f, (), dict(loc=list(loc), scale=list(sc)), ANY


@entry("fit_som")
def _(r):
    f = fun("fit_som")
    fr, H = I.sos_resp(r)
    M = len(fr)
    U = np.eye(2 * M) * 1e-8 * np.max(np.abs(H)) ** 2
    form = r.randint(0, 2)
    UH = U if form else np.sqrt(np.diag(U))
    sc = dict(scaling=1.0 / fr.max())
    wt = 0.5 + r.rand(2 * M)
    yield "no uncertainty", f, (fr, H), sc, None
    yield "uncertainty", f, (fr, H, UH), dict(sc, MCruns=20), None
    yield "weighting", f, (fr, H), dict(sc, weighting=wt), None
    k = other(r, 2 * M)
    yield f"response of length {k} for {M} frequencies", f, (fr, r.rand(k)), sc, ANY
    yield f"uncertainty of length {k} for {M} frequencies", f, (fr, H, r.rand(k)), sc, ANY
    for sh in mat_shapes(r, 2 * M):
        yield f"uncertainty {sh} for {M} frequencies", f, (fr, H, np.abs(rnd(r, sh))), dict(sc, MCruns=20), ANY
    yield f"{k} weights for {M} frequencies", f, (fr, H), dict(sc, weighting=0.5 + r.rand(k)), ANY
    H0 = H.copy()
    i = r.randint(0, M)
    H0[[i, M + i]] = 0
    yield "zero response", f, (fr, H0), sc, ANY


@entry("invLSFIR_unc")
def _(r):
    f = fun("invLSFIR_unc")
    M = r.randint(4, 9)
    fr = np.linspace(0.02, 0.45, M)
    H = 1.0 / (1 + 1j * 2 * fr)
    H = np.r_[H.real, H.imag]
    U = np.eye(2 * M) * 1e-8
    N, tau = int(r.randint(1, 4)), int(r.randint(0, 3))
    wt = 0.5 + r.rand(2 * M)
    yield "weights", f, (H, U, N, tau, fr, 1.0), dict(wt=wt), None
    k = other(r, 2 * M)
    yield f"{k} weights for {M} frequencies", f, (H, U, N, tau, fr, 1.0), dict(wt=0.5 + r.rand(k)), ANY


@entry("impinvar")
def _(r):
    f = fun("impinvar")
    n = r.randint(1, 5)
    poles = -np.sort(0.3 + r.rand(n)) * 1.0 - np.arange(n) * 0.7
    a = np.real(np.poly(poles))
    fs = 10.0
    for k in {n, int(r.randint(1, n + 1))}:
        yield f"numerator of {k}, denominator of {n + 1} coefficients", f, (0.5 + r.rand(k), a), dict(fs=fs), None
    for k in {n + 1, n + 2}:
        b = 0.5 + r.rand(k)
        yield f"numerator of {k}, denominator of {n + 1} coefficients", f, (b, a), dict(fs=fs), ANY


@entry("isstable")
def _(r):
    f = fun("isstable")
    a = np.r_[1.0, 0.3 * r.randn(r.randint(1, 5))]
    b = r.randn(r.randint(1, 4))
    for t in ("digital", "analog"):
        yield t, f, (b, a, t), {}, None
    yield "default", f, (b, a), {}, None
    bad = ("Digital", "foo", "", None, "z", "analogue", "dig")[r.randint(0, 7)]
    yield f"ftype={bad!r}", f, (b, a, bad), {}, ANY


@entry("savitzky_golay")
def _(r):
    f = fun("savitzky_golay")
    w = 2 * int(r.randint(1, 8)) + 1
    y = r.randn(w + r.randint(0, 20))
    o = int(r.randint(0, w - 1))
    yield f"window {w}, order {o}", f, (y, w, o), {}, None
    yield f"window {w}, order {w - 2}", f, (y, w, w - 2), {}, None
    e = w + (1, -1)[r.randint(0, 2)]
    yield f"even window {e}", f, (y, e, 0), {}, ANY
    for o in (w - 1, w, w + int(r.randint(1, 5))):
        yield f"window {w}, order {o}", f, (y, w, o), {}, ANY
    yield "text as window", f, (y, "wide", 1), {}, ANY
    yield "text as order", f, (y, w, "high"), {}, ANY


@entry("rect")
def _(r):
    f = fun("rect")
    n = r.randint(3, 30)
    t = np.arange(n) * 0.1
    a = (t, t[1], t[-1] - 0.1)
    for nz in (0.0, 0.3, r.randn(n)):
        yield "valid noise", f, a, dict(noise=nz), None
    k = other(r, n)
    yield f"noise of length {k} for {n} times", f, a, dict(noise=r.randn(k)), ANY
    bad = ("0.1", [0.1] * n, None)[r.randint(0, 3)]
    yield f"noise of type {type(bad).__name__}", f, a, dict(noise=bad), ANY


@entry("shift_uncertainty")
def _(r):
    f = fun("shift_uncertainty")
    n = r.randint(2, 12)
    x = r.randn(n)
    s = int(r.randint(-n - 3, n + 4))
    for u in (0.5, I.unc(r, n), I.covm(r, n)):
        yield "valid", f, (x, u, s), {}, None
    k = other(r, n)
    for sh in ((n, k), (k, n), (n, n, n), (n, n, 1)):
        yield f"uncertainty of shape {sh} for {n} values", f, (x, rnd(r, sh), s), {}, ANY
    yield "list as uncertainty", f, (x, [0.1] * n, s), {}, ANY
    yield "text as uncertainty", f, (x, "0.1", s), {}, ANY
    yield "fractional shift", f, (x, 0.5, s + 0.5), {}, ANY


@entry("make_semiposdef")
def _(r):
    f = fun("make_semiposdef")
    n = r.randint(1, 8)
    yield "square", f, (I.covm(r, n),), {}, None
    k = other(r, n)
    for sh in ((n, k), (k, n)):
        yield f"shape {sh}", f, (rnd(r, sh),), {}, ValueError
        yield f"sparse, shape {sh}", f, (sparse.csr_matrix(rnd(r, sh)),), {}, ValueError


@entry("FreqResp2RealImag")
def _(r):
    f = fun("FreqResp2RealImag")
    M = r.randint(1, 7)
    A, P, U = 0.5 + r.rand(M), r.randn(M), np.eye(2 * M) * 1e-4
    yield "matrix", f, (A, P, U), dict(MCruns=10), None
    yield "vector", f, (A, P, np.diag(U).copy()), dict(MCruns=10), None
    k = other(r, M)
    yield f"{M} amplitudes, {k} phases", f, (A, r.randn(k), U), dict(MCruns=10), ValueError
    yield f"{k} amplitudes, {M} phases", f, (0.5 + r.rand(k), P, U), dict(MCruns=10), ValueError
    k = other(r, 2 * M)
    yield f"covariance of {k} for {M} values", f, (A, P, np.eye(k)), dict(MCruns=10), ValueError
    yield f"{k} variances for {M} values", f, (A, P, np.ones(k)), dict(MCruns=10), ValueError


@entry("noise")
def _(r):
    from PyDynamic.misc import noise as nz
    n = 2 * int(r.randint(2, 10))
    for c in list(nz.colors) + [0.5, -1, 2]:
        yield f"color {c}", nz.get_alpha, (c,), {}, None
    bad = ("Red", "foo", "", "grey", "0")[r.randint(0, 5)]
    yield f"color {bad!r}", nz.get_alpha, (bad,), {}, ANY
    bad = (None, [1.0], (2,), {"a": 1})[r.randint(0, 4)]
    yield f"color of type {type(bad).__name__}", nz.get_alpha, (bad,), {}, ANY
    yield "N", nz.power_law_noise, (), dict(N=n), None
    yield "w", nz.power_law_noise, (), dict(w=r.randn(n)), None
    yield "N and w", nz.power_law_noise, (), dict(N=n, w=r.randn(n)), ANY
    yield "unknown color", nz.power_law_noise, (), dict(N=n, color_value="foo"), ANY


@entry("Signal")
def _(r):
    from PyDynamic.signals import Signal
    n = r.randint(2, 12)
    dt = (0.1, 1.0, 2.5)[r.randint(0, 3)]
    t = np.arange(n) * dt
    x = r.randn(n)
    forms = [None, 0.1, 2, I.unc(r, n), I.covm(r, n)]
    u = forms[r.randint(0, len(forms))]
    yield "valid", Signal, (t, x), dict(uncertainty=u), None
    yield "consistent Ts and Fs", Signal, (t, x), dict(Ts=dt, Fs=1 / dt, uncertainty=u), None
    k = other(r, n, lo=2)
    yield f"{n} times, {k} values", Signal, (t, r.randn(k)), {}, ANY
    yield f"{k} uncertainties for {n} values", Signal, (t, x), dict(uncertainty=r.rand(k)), ANY
    for sh in mat_shapes(r, n):
        if 1 in sh:  # a column or row is taken as a vector
            continue
        yield f"covariance {sh} for {n} values", Signal, (t, x), dict(uncertainty=rnd(r, sh)), ANY
    q = (1.01, 0.5, 2.0, 1.001)[r.randint(0, 4)]
    yield f"Fs*Ts={q}", Signal, (t, x), dict(Ts=dt, Fs=q / dt), ANY
    yield "values of two dimensions", Signal, (t, r.randn(n, 2)), {}, ANY


NAMES = sorted(CASES)


@law("C31", gen.fd(i=st.integers(0, len(NAMES) - 1), s=gen.seeds()), quick=4000,
     classify=lambda c: [NAMES[c["i"]]])
def invalid_input_is_rejected_and_its_valid_neighbour_accepted(c):
    """a random valid call has to be answered; made inconsistent it has to be rejected"""
    name = NAMES[c["i"]]
    r = np.random.RandomState(c["s"])
    for label, f, a, kw, exc in CASES[name][0](r):
        if exc is None:
            quiet(f, *R.copy(a), **R.copy(kw))
        else:
            raises(lambda: quiet(f, *R.copy(a), **R.copy(kw)), exc, f"{name} ({label})")
