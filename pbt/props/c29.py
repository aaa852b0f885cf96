"""C29: calls are pure (all public functions, registry driven)."""
import contextlib
import importlib
import io
import os
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, registry as R
from ..core import Discard, Violation, expect, law

RULE = "a call with at least one array argument (histories: at least three calls); distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): random valid calls of all public functions and random histories of calls with shared arguments; arguments, repeated results and random state are compared before and after"


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def invoke(name, a, seed=None, path=None, npos=99):
    f = R.FUNCS[name]
    try:
        g = f.get(path)
    except (ImportError, AttributeError) as e:
        raise Violation(f"{path or f.module} does not offer {name}: {e}")
    if seed is not None:
        np.random.seed(seed)
    return R.call(g, f.sig, a, npos)


def unchanged(a, a0, name):
    for k in a0:
        expect(R.same(a[k], a0[k]), f"{name} changed its argument {k}")


def equal(x, y, msg):
    if R.same(x, y):
        return
    expect(R.same(x, y, 1e-9), msg)


def case(fs):
    return gen.fd(f=st.sampled_from(fs), s=gen.seeds(), npos=st.sampled_from([99, 99, 0, 2]))


@law("C29", case(R.names(random=False)), quick=1500, classify=lambda c: [c["f"]])
def deterministic_functions_are_pure(c):
    """arguments unchanged, global random state untouched, the repeated call and a call
    with equal copies give identical results, earlier results stay as they were"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    a0 = R.copy(a)
    s0 = state()
    out = invoke(name, a, npos=c["npos"])
    expect(state() == s0, f"{name} changed the global random state")
    unchanged(a, a0, name)
    out0 = R.copy(out)
    np.random.seed(c["s"] % 1000)
    other = R.FUNCS[name].args(np.random.RandomState(c["s"] + 1))
    invoke(name, other)
    expect(R.same(out, out0), f"a later call of {name} changed an earlier result")
    equal(out0, invoke(name, a, npos=c["npos"]), f"repeating {name} gives another result")
    unchanged(a, a0, name)
    equal(out0, invoke(name, a0), f"{name} gives another result for equal arguments")


@law("C29", case(R.names(random=True, max_cost=2)), quick=500, classify=lambda c: [c["f"]])
def randomised_functions_depend_on_the_seed_only(c):
    """arguments unchanged, equal seeds give identical results after any other calls"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    a0 = R.copy(a)
    out = invoke(name, a, seed=c["s"], npos=c["npos"])
    unchanged(a, a0, name)
    out0 = R.copy(out)
    np.random.rand(c["s"] % 7)
    other = sorted(R.names(random=False))[c["s"] % 40]
    invoke(other, R.FUNCS[other].args(np.random.RandomState(c["s"] + 2)))
    again = invoke(name, a, seed=c["s"], npos=c["npos"])
    expect(R.same(out, out0), f"a later call of {name} changed an earlier result")
    equal(out0, again, f"{name} gives another result with the same seed")
    unchanged(a, a0, name)


SLOW = R.names(random=True, max_cost=9)
SLOW = [n for n in SLOW if R.FUNCS[n].cost > 2]


@law("C29", case(SLOW), quick=4, thorough=40, classify=lambda c: [c["f"]])
def slow_monte_carlo_fits_depend_on_the_seed_only(c):
    """as above for the fits with a fixed large number of runs"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    a0 = R.copy(a)
    out = R.copy(invoke(name, a, seed=c["s"]))
    unchanged(a, a0, name)
    equal(out, invoke(name, a, seed=c["s"]), f"{name} gives another result with the same seed")


@law("C29", gen.fd(h=st.lists(gen.fd(f=st.sampled_from(R.names(max_cost=1)), s=st.integers(0, 60)),
                              min_size=2, max_size=7)), quick=320,
     nontrivial=lambda c: len(c["h"]) >= 3, classify=lambda c: [f"length={len(c['h'])}"])
def results_do_not_depend_on_the_history(c):
    """every call of a history gives what it gives again after all the others"""
    calls, first = [], []
    for k in c["h"]:
        a = R.FUNCS[k["f"]].args(np.random.RandomState(k["s"]))
        calls.append((k["f"], a, R.copy(a), k["s"]))
    for name, a, a0, s in calls:
        first.append(R.copy(invoke(name, a, seed=s)))
    for (name, a, a0, s), want in reversed(list(zip(calls, first))):
        equal(want, invoke(name, a, seed=s), f"{name} depends on the calls made before")
        unchanged(a, a0, name)


@contextlib.contextmanager
def fresh_copy():
    """a newly imported copy of the package: nothing that earlier calls may have stored in
    its modules is left; the modules in use are put back afterwards"""
    def mine():
        return {k: sys.modules.pop(k) for k in list(sys.modules)
                if k == "PyDynamic" or k.startswith("PyDynamic.")}
    old = mine()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield importlib.import_module
    finally:
        mine()
        sys.modules.update(old)


def vary(a, r):
    """other arguments of the same structure and sizes (not necessarily valid ones)"""
    b = R.copy(a)
    keys = sorted(b)
    for k in [keys[r.randint(0, len(keys))] for _ in range(r.randint(1, 4))]:
        v = b[k]
        if isinstance(v, np.ndarray) and v.dtype == bool:
            b[k] = np.roll(v, 1) if r.rand() < 0.7 else r.permutation(v.ravel()).reshape(v.shape)
        elif isinstance(v, np.ndarray) and v.size and v.dtype.kind in "fci":
            c = 1.0 + r.rand() if v.dtype.kind != "i" else 2
            b[k] = v * c if r.rand() < 0.6 or v.ndim > 1 else v[::-1].copy()
        elif isinstance(v, float):
            b[k] = v * (1.0 + r.rand())
        elif isinstance(v, bool):
            b[k] = not v
        elif isinstance(v, int) and r.rand() < 0.4:
            b[k] = v + 1
        elif isinstance(v, str) and k in KINDS:
            b[k] = KINDS[k][r.randint(0, len(KINDS[k]))]
    return b


KINDS = {"mode": ["full", "same", "valid", "nearest", "reflect", "mirror"], "kind": ["linear", "nearest", "next", "diag", "corr"],
         "return_type": ["separate", "AP"], "weighting": ["diag", "cov"]}


def outcome(load, name, a, seed):
    f = R.FUNCS[name]
    mod, _, nm = f.module.partition(":")
    g = getattr(load(mod), nm or name.split("/")[0])
    np.random.seed(seed)
    try:
        return R.copy(R.call(g, f.sig, a, 99))
    except Exception as e:
        return "raised " + type(e).__name__


@law("C29", gen.fd(f=st.sampled_from(R.names(max_cost=1) + ["GUM_DFT", "GUM_iDFT", "interp1d_unc", "MC", "SMC", "fit_som"]),
                   s=gen.seeds(), v=st.lists(st.integers(0, 200), min_size=1, max_size=4)), quick=900,
     classify=lambda c: [c["f"]])
def related_calls_do_not_influence_each_other(c):
    """a call after calls of the same function with other arguments of the same sizes gives
    what it gives in a newly imported copy of the package"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    last = vary(a, np.random.RandomState(c["v"][-1]))
    with fresh_copy() as load:
        outcome(load, name, R.copy(a), c["s"])
        for k in c["v"][:-1]:
            outcome(load, name, vary(a, np.random.RandomState(k)), c["s"])
        got = outcome(load, name, R.copy(last), c["s"])
    with fresh_copy() as load:
        want = outcome(load, name, last, c["s"])
    equal(want, got, f"{name} gives another result after calls with other arguments of the same sizes")


def overwrite(old, new):
    """the values of new in the array objects of old (where they fit)"""
    for k, v in new.items():
        w = old[k]
        if isinstance(w, np.ndarray) and isinstance(v, np.ndarray) and w.shape == v.shape and w.dtype == v.dtype:
            w[...] = v
        else:
            old[k] = v


@law("C29", gen.fd(f=st.sampled_from(R.names(max_cost=1) + ["FIRuncFilter", "GUM_DFT", "GUM_iDFT", "interp1d_unc", "MC", "SMC", "fit_som"]),
                   s=gen.seeds(), v=st.lists(st.integers(0, 200), min_size=1, max_size=3)), quick=900,
     classify=lambda c: [c["f"]])
def arguments_changed_in_place_count_with_their_new_values(c):
    """a call with the same array objects, overwritten since the last call (a reused
    buffer), gives what a call with fresh arrays of these values gives"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    a0 = R.copy(a)
    outcome(importlib.import_module, name, a, c["s"])
    for k in c["v"]:
        b = vary(a0, np.random.RandomState(k))
        overwrite(a, R.copy(b))
        got = outcome(importlib.import_module, name, a, c["s"])
        want = outcome(importlib.import_module, name, R.copy(b), c["s"])
        equal(want, got, f"{name} gives another result for arrays changed in place")


def scribble(v):
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype.kind in "fci":
            v[...] = 77
    elif hasattr(v, "data") and hasattr(v, "toarray"):
        scribble(v.data)
    elif isinstance(v, (list, tuple)):
        for q in v:
            scribble(q)
    elif isinstance(v, dict):
        for q in v.values():
            scribble(q)


def settings():
    return (np.geterr(), str(np.get_printoptions()), dict(os.environ), os.getcwd(), len(warnings.filters),
            np.geterrcall() is None, sys.getrecursionlimit())


@law("C29", gen.fd(f=st.sampled_from(R.names(max_cost=1) + ["GUM_DFT", "GUM_iDFT", "interp1d_unc", "MC", "SMC", "fit_som"]),
                   s=gen.seeds()), quick=900, classify=lambda c: [c["f"]])
def results_belong_to_the_caller(c):
    """overwriting a result does not change later results; no call changes the settings of
    the interpreter or of NumPy"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    a0, a1 = R.copy(a), R.copy(a)
    before = settings()
    out = outcome(importlib.import_module, name, a, c["s"])
    expect(settings() == before, f"{name} changed global settings")
    # outcome() copies: call once more for the objects themselves
    f = R.FUNCS[name]
    np.random.seed(c["s"])
    try:
        scribble(R.call(f.get(), f.sig, a0, 99))
    except Exception:
        return
    again = outcome(importlib.import_module, name, a1, c["s"])
    equal(out, again, f"{name} gives another result after an earlier one was overwritten by the caller")


def shared(r):
    """functions applied to one and the same signal, uncertainty and covariance objects"""
    M = r.randint(2, 7)
    n = 2 * (M - 1)
    F = R.polar_cart(r, M)[2]
    x = r.randn(n)
    U, V, u, t = R.covm(r, n, float), R.covm(r, 2 * M, float), R.unc(r, n), R.grid(r, n)
    b, a = r.randn(3), R.stable(r, 2)
    f = np.linspace(0.05, 0.45, M)
    H = F[:M] + 1j * F[M:]
    win = np.hanning(n)
    obj = dict(F=F, x=x, U=U, V=V, u=u, t=t, b=b, a=a, f=f, H=H, win=win)
    ops = [("FIRuncFilter", dict(y=x, sigma_noise=u, theta=b, kind="diag")),
           ("FIRuncFilter", dict(y=x, sigma_noise=U, theta=b, shift=1, return_full_covariance=True)),
           ("IIRuncFilter", dict(x=x, noise=u, b=b, a=a, Uab=np.eye(5) * 1e-3)),
           ("convolve_unc", dict(x1=x, U1=U, x2=b, U2=None)),
           ("GUM_DFT", dict(x=x, Ux=U)), ("GUM_DFT", dict(x=x, Ux=U, window=win)),
           ("GUM_DFT", dict(x=x, Ux=u, window=win)),
           ("GUM_iDFT", dict(F=F, UF=V)), ("DFT2AmpPhase", dict(F=F, UF=V)),
           ("DFT_deconv", dict(H=F, Y=F, UH=V, UY=V)), ("DFT_multiply", dict(Y=F, F=F, UY=V, UF=V)),
           ("AmpPhase2DFT", dict(A=np.abs(H), P=np.angle(H), UAP=V)),
           ("AmpPhase2Time", dict(A=np.abs(H), P=np.angle(H), UAP=V)),
           ("interp1d_unc", dict(t_new=t[::-1] if False else t, t=t, y=x, uy=u, copy=False)),
           ("make_equidistant", dict(t=t, y=x, uy=u, dt=(t[-1] - t[0]) / 3.3)),
           ("LSFIR", dict(H=H, N=1, tau=0, f=f, Fs=1.0)), ("invLSFIR", dict(H=H, N=1, tau=1, f=f, Fs=1.0)),
           ("shift_uncertainty", dict(x=x, ux=U, shift=2)), ("shift_uncertainty", dict(x=x, ux=u, shift=-1)),
           ("make_semiposdef", dict(matrix=U)), ("isstable", dict(b=b, a=a)), ("mapinside", dict(a=a)),
           ("grpdelay", dict(b=b, a=a, Fs=1.0, nfft=32)), ("trimOrPad", dict(array=x, length=n + 2)),
           ("power_law_noise", dict(w=x)), ("MC", dict(x=x, Ux=U, b=b, a=a, Uab=np.zeros((5, 5)), runs=4)),
           ("SMC", dict(x=x, noise_std=0.1, b=b, a=a, runs=4)),
           ("FreqResp2RealImag", dict(Abs=np.abs(H), Phase=np.angle(H), Unc=V * 1e-3, MCruns=20))]
    return obj, ops


@law("C29", gen.fd(s=gen.seeds(), ops=st.lists(st.integers(0, 27), min_size=2, max_size=8)), quick=240,
     nontrivial=lambda c: len(c["ops"]) >= 3)
def shared_arguments_survive_any_sequence(c):
    """the same objects given to many functions in turn keep their values, and each result
    equals that for fresh copies"""
    obj, ops = shared(np.random.RandomState(c["s"]))
    obj0 = R.copy(obj)
    pristine = shared(np.random.RandomState(c["s"]))[1]
    for i, k in enumerate(c["ops"]):
        name, a = ops[k]
        out = invoke(name, a, seed=i)
        for q in obj0:
            expect(R.same(obj[q], obj0[q]), f"{name} changed the shared object {q}")
        equal(R.copy(out), invoke(name, R.copy(pristine[k][1]), seed=i), f"{name} with shared and with fresh arguments")


def relayout(v, how):
    if not isinstance(v, np.ndarray) or v.ndim == 0:
        return v
    if how == "fortran":
        return np.asfortranarray(v)
    if how == "strided":
        w = np.zeros(tuple(2 * k for k in v.shape), v.dtype)
        z = w[tuple(slice(None, None, 2) for _ in v.shape)]
        z[...] = v
        return z
    if how == "reversed":
        z = v[tuple(slice(None, None, -1) for _ in v.shape)].copy()
        return z[tuple(slice(None, None, -1) for _ in v.shape)]
    if how == "float" and v.dtype.kind == "i":
        return v.astype(float)
    return v


@law("C29", gen.fd(f=st.sampled_from(R.names(random=False)), s=gen.seeds(),
                   how=st.sampled_from(["fortran", "strided", "reversed", "float"])), quick=1200,
     classify=lambda c: [c["how"]])
def equal_arrays_in_another_layout_give_equal_results(c):
    """memory layout and integer instead of floating-point storage of equal values do not matter"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    b = {k: v if k == "selector" else relayout(v, c["how"]) for k, v in a.items()}
    x, y = invoke(name, a), invoke(name, b)
    if c["how"] == "float":
        def fl(v):
            if isinstance(v, (tuple, list)):
                return [fl(q) for q in v]
            if isinstance(v, dict):
                return {k: fl(q) for k, q in v.items()}
            if hasattr(v, "toarray"):
                v = v.toarray()
            return v if isinstance(v, (str, bool)) or v is None else np.asarray(v) * 1.0
        x, y = fl(x), fl(y)
    expect(R.same(x, y, 1e-8), f"{name}: result differs for equal arrays ({c['how']})")


def floats(v):
    """a result as floating-point arrays"""
    if isinstance(v, (tuple, list)):
        return [floats(q) for q in v]
    if isinstance(v, dict):
        return {k: floats(q) for k, q in v.items()}
    if hasattr(v, "toarray"):
        v = v.toarray()
    return v if isinstance(v, (str, bool)) or v is None else np.asarray(v) * 1.0


STORED = [k for k in R.names() if not k.startswith("print_")]


@law("C29", gen.fd(f=st.sampled_from(STORED), s=gen.seeds(), m=st.sampled_from([9, 100, 3000]),
                   dt=st.sampled_from(["int16", "int32", "int64"]), k=st.integers(0, 9)),
     quick=1200, classify=lambda c: [c["dt"]])
def storage_type_of_equal_numbers_does_not_matter(c):
    """one array argument with integer values: stored as (narrow) integers it gives
    the result it gives as floating-point numbers"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    keys = sorted(k for k, v in a.items() if isinstance(v, np.ndarray) and v.ndim and v.size and k != "selector"
                  and v.dtype.kind in "fi" and np.max(np.abs(v)) > 0)
    if not keys:
        raise Discard
    k = keys[c["k"] % len(keys)]
    v = np.asarray(a[k], float)
    w = np.rint(v / np.max(np.abs(v)) * c["m"])
    if v.ndim == 1 and len(np.unique(v)) != len(np.unique(w)):
        raise Discard  # times or frequencies may not coincide
    x = dict(R.copy(a), **{k: w.copy()})
    y = dict(R.copy(a), **{k: w.astype(c["dt"])})
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            x = invoke(name, x, seed=c["s"])
        except Violation:
            raise
        except Exception:
            raise Discard  # not a valid argument any more
        if any(not np.all(np.isfinite(q)) for q in numbers(x)):
            raise Discard
        y = invoke(name, y, seed=c["s"])
    expect(R.same(floats(R.copy(x)), floats(R.copy(y)), 1e-5),
           f"{name}: {k} as {c['dt']} changes the result")


def retyped(v):
    """other ways to write down the same argument"""
    if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind in "fcib":
        return [v.tolist(), tuple(v.tolist())]
    if isinstance(v, (bool, str)):
        return []
    if isinstance(v, int):
        return [np.int64(v), np.int32(v)]
    if isinstance(v, float):
        return [np.float64(v)] + [t(v) for t in (np.float32, int) if np.isfinite(v) and float(t(v)) == v]
    return []


@law("C29", gen.fd(f=st.sampled_from(R.names(max_cost=2)), s=gen.seeds(), k=st.integers(0, 99),
                   j=st.integers(0, 5)), quick=1200, classify=lambda c: [c["f"]])
def lists_and_numpy_scalars_are_not_ignored(c):
    """one argument given as list, tuple or NumPy scalar is rejected or gives the same
    result, it is never dropped"""
    name = c["f"]
    a = R.FUNCS[name].args(np.random.RandomState(c["s"]))
    opts = [(k, w) for k in sorted(a) for w in retyped(a[k])]
    if not opts:
        raise Discard
    # arguments which are optional (late in the signature) are most easily dropped
    sig = R.FUNCS[name].sig
    late = [o for o in opts if o[0] in sig and sig.index(o[0]) >= 2]
    opts = late if late and c["j"] else opts
    k, w = opts[c["k"] % len(opts)]
    b = R.copy(a)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        x = invoke(name, a, seed=c["s"])
        b[k] = w
        try:
            y = invoke(name, b, seed=c["s"])
        except Violation:
            raise
        except Exception:
            return  # rejected
    expect(R.same(floats(R.copy(x)), floats(R.copy(y)), 1e-5 if isinstance(w, np.float32) else 1e-8),
           f"{name}: {k} as {type(w).__name__} gives another result")


def numbers(v):
    v = floats(v)
    if isinstance(v, dict):
        v = list(v.values())
    if isinstance(v, list):
        return [q for u in v for q in numbers(u)]
    return [v] if isinstance(v, (np.ndarray, np.generic)) else []


@law("C29", gen.fd(s=gen.seeds(), n=st.integers(2, 6), generic=st.booleans()), quick=8, thorough=60,
     nontrivial=lambda c: c["n"] >= 2)
def update_monte_carlo_is_reproducible(c):
    """UMC and UMC_generic: arguments unchanged, equal seeds give equal results"""
    from PyDynamic.uncertainty.propagate_MonteCarlo import UMC, UMC_generic
    from .c16 import model_vector

    r = np.random.RandomState(c["s"])
    n = c["n"]
    if c["generic"]:
        def run():
            np.random.seed(c["s"])
            return UMC_generic(lambda k: np.random.randn(k, n), model_vector, runs=12, blocksize=4,
                               runs_init=4, nbins=5, n_cpu=2)
        a = {}
    else:
        a = dict(x=r.randn(n), b=r.randn(2), a=np.array([1.0, -0.5]), Uab=np.eye(3) * 1e-4,
                 blow=np.array([0.5, 0.5]), alow=np.array([1.0]), nbins=[5, 7])

        def run():
            np.random.seed(c["s"])
            return UMC(runs=12, blocksize=4, runs_init=4, **a)
    a0 = R.copy(a)
    with contextlib.redirect_stdout(io.StringIO()):
        x, y = run(), run()
    unchanged(a, a0, "UMC")
    expect(R.same(R.copy(x), y, 1e-9), "results differ for equal seeds")
