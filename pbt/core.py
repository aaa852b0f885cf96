"""Core of the property-based checks: laws, comparison helpers, worker loop.

A *law* is a Hypothesis strategy producing a JSON-able case plus a function
``check(case)`` that calls PyDynamic and compares with an oracle.  ``check``
raises :class:`Violation` (through the helpers below) when the law is broken.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
SUT_DIR = os.path.join(os.path.realpath(REPO), "PyDynamic") + os.sep
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Violation(Exception):
    """The code under test broke the law."""


class Discard(Exception):
    """The case is outside of the domain (counted, should be rare)."""


LAWS = {}  # property -> list of Law
PROBES = {}  # finding id -> function


class Law:
    def __init__(self, prop, name, strategy, check, quick, thorough, nontrivial,
                 classify, rule):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.nontrivial = nontrivial or (lambda case: True)
        self.classify = classify or (lambda case: [])
        self.rule = rule

    def examples(self, tier):
        return self.thorough if tier == "thorough" else self.quick


def law(prop, strategy, quick=300, thorough=None, nontrivial=None, classify=None,
        rule="", name=None):
    def deco(fn):
        LAWS.setdefault(prop, []).append(
            Law(prop, name or fn.__name__, strategy, fn, quick, thorough or quick * 12,
                nontrivial, classify, rule or (fn.__doc__ or "").strip()))
        return fn
    return deco


def enlarge(fn, quick, thorough=None, name=None, **sizes):
    """the law ``fn`` again, with sizes (keys of its case, nested ones as a__b) far above
    the usual ones"""
    from hypothesis import strategies as st

    base = [lw for laws in LAWS.values() for lw in laws if lw.check is fn][0]

    def merge(k):
        c = json.loads(json.dumps(k["c"]))
        for path, v in k["z"].items():
            d = c
            *head, last = path.split("__")
            for h in head:
                d = d[h]
            d[last] = v
        return c

    def big(k):
        return fn(merge(k))
    LAWS[base.prop].append(Law(
        base.prop, name or fn.__name__ + "_large",
        st.fixed_dictionaries(dict(c=base.strategy, z=st.fixed_dictionaries(sizes))), big,
        quick, thorough or quick * 12, lambda k: base.nontrivial(merge(k)),
        lambda k: base.classify(merge(k)), base.rule + " (large sizes)"))


def probe(finding_id):
    """A recorded, unrepaired finding: returns None if it no longer fails, else text."""
    def deco(fn):
        PROBES[finding_id] = fn
        return fn
    return deco


# ----------------------------------------------------------------- outputs


def arr(value, shape=None, what="result", finite=True, complex_ok=False):
    """Turn an output of the code under test into an array or raise Violation."""
    if value is None:
        raise Violation(f"{what}: got None")
    try:
        if hasattr(value, "toarray"):
            value = value.toarray()
        a = np.array(value)
        if a.dtype == object:
            raise TypeError("object array")
        if np.iscomplexobj(a):
            if not complex_ok:
                raise TypeError("complex values")
            a = a.astype(complex)
        else:
            a = a.astype(float)
    except Exception as e:
        raise Violation(f"{what}: not a numeric array ({type(value).__name__}: {e})")
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what}: shape {a.shape}, expected {tuple(shape)}")
    if finite and a.size and not np.all(np.isfinite(a)):
        raise Violation(f"{what}: contains non-finite values")
    return a


def unpack(value, n, what="result"):
    """Output must be a sequence of n items."""
    try:
        items = tuple(value)
    except TypeError:
        raise Violation(f"{what}: expected {n} return values, got {type(value).__name__}")
    if len(items) != n:
        raise Violation(f"{what}: expected {n} return values, got {len(items)}")
    return items


def close(got, want, what="result", rtol=1e-9, atol=0.0, scale=None, complex_ok=False):
    """|got - want| <= rtol * max(scale, |want|_max) + atol, shapes equal."""
    w = np.asarray(want)
    g = arr(got, w.shape, what, complex_ok=complex_ok)
    if w.size == 0:
        return g
    ref = float(np.max(np.abs(w)))
    if scale is not None:
        ref = max(ref, float(scale))
    tol = rtol * ref + atol
    d = np.abs(g - w)
    if not np.all(d <= tol):
        i = np.unravel_index(np.argmax(d), d.shape)
        raise Violation(
            f"{what}: differs from the oracle at {tuple(int(k) for k in i)}: "
            f"got {g[i]!r}, expected {w[i]!r} (tolerance {tol:.3g})")
    return g


def close_el(got, want, what="result", rtol=1e-9, atol=0.0, complex_ok=False):
    """element-wise tolerance (atol may be an array)"""
    w = np.asarray(want)
    g = arr(got, w.shape, what, complex_ok=complex_ok)
    tol = rtol * np.abs(w) + atol
    d = np.abs(g - w)
    if not np.all(d <= tol):
        i = np.unravel_index(np.argmax(d - tol), d.shape)
        raise Violation(f"{what}: differs from the oracle at {tuple(int(k) for k in i)}: "
                        f"got {g[i]!r}, expected {w[i]!r}")
    return g


def close_cov(got, J, U, what="covariance", rtol=1e-9, bound=None, second=None):
    """got == J U J^T (+ second), tolerance rtol * s_i s_j with s = bound . sqrt(diag U),
    where ``bound`` is an entry-wise magnitude bound of J (default |J|)."""
    J = np.asarray(J, float)
    U = np.asarray(U, float)
    if U.ndim == 1:
        U = np.diag(U)
    want = J.dot(U).dot(J.T)
    if second is not None:
        want = want + second
    g = arr(got, want.shape, what)
    B = np.abs(J) if bound is None else np.maximum(np.abs(J), bound)
    s = B.dot(np.sqrt(np.abs(np.diag(U))))
    tol = rtol * np.outer(s, s)
    d = np.abs(g - want)
    if not np.all(d <= tol):
        i = np.unravel_index(np.argmax(d - tol), d.shape)
        raise Violation(f"{what}: differs from the oracle at {tuple(int(k) for k in i)}: "
                        f"got {g[i]!r}, expected {want[i]!r} (tolerance {tol[i]:.3g})")
    return g


def std_close(got, var, what="uncertainty", rtol=1e-9, vscale=None):
    """Standard uncertainties compared on the variance scale."""
    var = np.asarray(var, dtype=float)
    g = arr(got, var.shape, what)
    if np.any(g < 0):
        raise Violation(f"{what}: negative standard uncertainty")
    close(g ** 2, var, what + " (squared)", rtol=rtol, scale=vscale)
    return g


def expect(cond, msg):
    if not cond:
        raise Violation(msg)


def symmetric_psd(U, what="covariance", tol=1e-9, n=None):
    U = arr(U, (n, n) if n is not None else None, what)
    if U.ndim != 2 or U.shape[0] != U.shape[1]:
        raise Violation(f"{what}: not square, shape {U.shape}")
    m = float(np.max(np.abs(U))) if U.size else 0.0
    if m == 0.0:
        return U
    if not np.all(np.abs(U - U.T) <= tol * m):
        raise Violation(f"{what}: not symmetric (max deviation "
                        f"{np.max(np.abs(U - U.T))!r} at scale {m!r})")
    e = np.linalg.eigvalsh((U + U.T) / 2.0 / m)
    if e[0] < -tol * len(U):
        raise Violation(f"{what}: smallest eigenvalue {e[0] * m!r} at scale {m!r}")
    return U


def raises(fn, exc=Exception, what="call"):
    """The call has to be rejected by an exception of the given kind(s)."""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({e}) instead of "
                        f"{getattr(exc, '__name__', exc)}")
    raise Violation(f"{what}: was accepted, returned {type(r).__name__}")


# ----------------------------------------------------------------- cases


def to_json(x):
    if isinstance(x, dict):
        return {str(k): to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, np.ndarray):
        return to_json(x.tolist())
    raise TypeError(type(x))


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def in_sut(tb):
    """Does the traceback pass through the code under test?"""
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(SUT_DIR):
            return True
        tb = tb.tb_next
    return False


CASE_LIMIT = 150 if not THOROUGH else 900


def _alarm(signum, frame):
    raise Violation(f"no answer within {CASE_LIMIT} s")


def run_check(lw, case):
    """Run one case: returns None (ok) or the violation text; harness errors propagate."""
    np.random.seed(20210)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        return _run_check(lw, case)
    finally:
        signal.alarm(0)


def _run_check(lw, case):
    try:
        with np.errstate(all="ignore"):
            lw.check(case)
    except Violation as v:
        return str(v)
    except Discard:
        raise
    except Exception as e:
        if in_sut(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            sut = [f for f in traceback.extract_tb(e.__traceback__)
                   if os.path.realpath(f.filename).startswith(SUT_DIR)][-1]
            return (f"valid call raised {type(e).__name__}: {e} "
                    f"(in {os.path.basename(sut.filename)}:{sut.name})")
        raise
    return None


class WorkerResult(dict):
    pass


def run_law(lw, seed, n_examples, shrink_s, t_end, max_samples=3, skip_first=False):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    st = dict(law=lw.name, evaluations=0, skipped=0, discarded=0, keys=[], labels={},
              samples=[], violation=None, errors=[])
    best = {"size": None, "case": None, "msg": None, "t0": None}
    seen = set()
    first = [skip_first]  # Hypothesis starts with the minimal case: one shard is enough

    def body(case):
        now = time.time()
        if first[0]:
            first[0] = False
            return
        if best["t0"] is None:
            if now > t_end:
                st["skipped"] += 1
                return
        elif now - best["t0"] > shrink_s:
            return
        case = to_json(case)
        if best["t0"] is None:
            st["evaluations"] += 1
        key = case_key(case)
        try:
            msg = run_check(lw, case)
        except Discard:
            st["discarded"] += 1
            return
        if best["t0"] is None:
            nt = bool(lw.nontrivial(case))
            if nt and key not in seen:
                seen.add(key)
                st["keys"].append(key)
            for lb in lw.classify(case):
                st["labels"][lb] = st["labels"].get(lb, 0) + 1
            if nt and (len(st["samples"]) < max_samples):
                st["samples"].append(case)
        if msg is not None:
            size = len(json.dumps(case))
            if best["t0"] is None:
                best["t0"] = now
            if best["size"] is None or size <= best["size"]:
                best.update(size=size, case=case, msg=msg)
            raise Violation(msg)

    test = given(lw.strategy)(body)
    test = settings(
        max_examples=max(1, n_examples) + int(skip_first), database=None, deadline=None,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        if best["case"] is None:
            st["errors"].append("".join(traceback.format_exception(
                type(e), e, e.__traceback__))[-6000:])
    if best["case"] is not None:
        st["violation"] = dict(case=best["case"], msg=best["msg"])
    return st


def assert_sut():
    import PyDynamic

    here = os.path.realpath(PyDynamic.__file__)
    if not here.startswith(SUT_DIR):
        raise RuntimeError(f"PyDynamic imported from {here}, not from {SUT_DIR}")
