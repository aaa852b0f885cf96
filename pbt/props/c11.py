"""C11: one-dimensional interpolation outside the node range."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Violation, arr, close_el, enlarge, expect, law, raises, unpack
from .c10 import I, build as build_in, grid, gridspec, qspec, tolerance, weights

RULE = "at least 3 queries, at least one of them outside of the node range; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): policy model of out-of-range queries and metamorphic comparison with the in-range result"
KINDS = ["linear", "linear", "previous", "next", "nearest"]


def fillspec():
    num = st.sampled_from([0, 1, 7, -3, 2.5, -0.125, 1e6, 0.0])
    return st.one_of(gen.fd(f=st.just("float"), v=num), gen.fd(f=st.just("tuple"), v=num, w=num),
                     gen.fd(f=st.just("extrapolate")), gen.fd(f=st.just("extrapolate")),
                     gen.fd(f=st.just("nan")), gen.fd(f=st.just("default")))


def fill_args(spec, name, kw, unc=False):
    """adds the keyword, returns (below, above) or None for boundary"""
    f = spec["f"]
    if f == "default":
        return np.nan, np.nan
    if f == "nan":
        kw[name] = np.nan
        return np.nan, np.nan
    if f == "extrapolate":
        kw[name] = "extrapolate"
        return None
    v = abs(spec["v"]) if unc else spec["v"]
    if f == "float":
        kw[name] = v
        return v, v
    w = abs(spec["w"]) if unc else spec["w"]
    kw[name] = (v, w)
    return v, w


def case(kinds=KINDS):
    return gen.fd(n=gen.sizes(2, 8, 30), t=gridspec(), q=qspec(), kind=st.sampled_from(kinds),
                  y=gen.vspec(wide=True), u=gen.uspec(wide=True),
                  form=st.sampled_from(["arrays", "arrays", "lists", "nocopy", "int"]),
                  out=gen.seeds(), side=st.sampled_from(["both", "below", "above"]),
                  fv=fillspec(), fu=fillspec(), be=st.sampled_from(["False", "False", "None"]),
                  unsorted=st.booleans())


def nt(c):
    return c["q"]["m"] >= 3


def cls(c):
    return [f"kind={c['kind']}", f"fill_value={c['fv']['f']}", f"fill_unc={c['fu']['f']}",
            f"side={c['side']}", f"bounds_error={c['be']}"]


def build(c):
    t, y, u, q = build_in(c)
    q = np.asarray(q, float).copy()
    r = np.random.RandomState(c["out"])
    span = float(t[-1] - t[0])
    where = r.rand(len(q)) < 0.6
    where[r.randint(0, len(q))] = True
    for i in np.flatnonzero(where):
        below = c["side"] == "below" or (c["side"] == "both" and r.rand() < 0.5)
        d = span * r.choice([1e-6, 0.1, 1.0, 30.0, r.uniform(0.01, 2)])
        q[i] = t[0] - d if below else t[-1] + d
    return t, y, u, q


def call(c, q, t, y, u, **kw):
    kw.setdefault("kind", c["kind"])
    if c.get("unsorted") and len(t) > 1:
        p = np.random.RandomState(c["out"] + 1).permutation(len(t))
        t, y, u = t[p], y[p], u[p]
        kw["assume_sorted"] = False
    if c["form"] == "lists":
        q, t, y, u = q.tolist(), t.tolist(), y.tolist(), u.tolist()
    if c["form"] == "nocopy":
        kw["copy"] = False
    return I().interp1d_unc(q, t, y, u, **kw)


def same(got, want, what):
    g = arr(got, want.shape, what, finite=False)
    ok = (g == want) | (np.isnan(g) & np.isnan(want))
    if not np.all(ok):
        i = int(np.flatnonzero(~ok)[0])
        raise Violation(f"{what}: out-of-range query {i}: got {g[i]!r}, requested {want[i]!r}")


@law("C11", case(), quick=2000, nontrivial=nt, classify=cls)
def policy_is_applied(c):
    """out-of-range queries get exactly the fill/boundary; in-range queries do not change"""
    t, y, u, q = build(c)
    kw = {}
    fv = fill_args(c["fv"], "fill_value", kw)
    fu = fill_args(c["fu"], "fill_unc", kw, unc=True)
    if c["be"] == "False":
        kw["bounds_error"] = False
    elif fv is not None or (c["kind"] != "linear" and fu is None and False):
        # the default policy is an error
        raises(lambda: call(c, q, t, y, u, **kw), ValueError, "out-of-range query by default")
        return
    fv = (y[0], y[-1]) if fv is None else fv
    fu = (u[0], u[-1]) if fu is None else fu
    tn, yn, un = unpack(call(c, q, t, y, u, **kw), 3)
    lo, hi = q < t[0], q > t[-1]
    wy = np.where(lo, fv[0], np.where(hi, fv[1], 0.0)).astype(float)
    wu = np.where(lo, fu[0], np.where(hi, fu[1], 0.0)).astype(float)
    o = lo | hi
    yn = arr(yn, q.shape, "values", finite=False)
    un = arr(un, q.shape, "uncertainties", finite=False)
    same(yn[o], wy[o], "values")
    same(un[o], wu[o], "uncertainties")
    if np.any(~o):
        W = weights(t, q[~o], c["kind"])
        rt = tolerance(t, W)
        close_el(yn[~o], W.dot(y), "in-range values", rtol=1e-12,
                 atol=rt * (np.abs(W) > 0).dot(np.abs(y)))
        close_el(un[~o], np.sqrt((W ** 2).dot(np.asarray(u, float) ** 2)),
                 "in-range uncertainties", rtol=1e-12, atol=rt * (np.abs(W) > 0).dot(u))
    expect(np.array_equal(arr(tn), q), "returned times are not the queries")


@law("C11", case(), quick=700, nontrivial=nt, classify=cls)
def error_is_raised_by_request(c):
    """bounds_error=True, or nothing requested: any out-of-range query raises, none in-range"""
    t, y, u, q = build(c)
    kw = {}
    if c["be"] == "False":
        fill_args(c["fv"], "fill_value", kw)
        if kw.get("fill_value") == "extrapolate":
            kw.pop("fill_value")
        fill_args(c["fu"], "fill_unc", kw, unc=True)
        if kw.get("fill_unc") == "extrapolate":
            kw.pop("fill_unc")
        kw["bounds_error"] = True
    raises(lambda: call(c, q, t, y, u, **kw), ValueError, "out-of-range query")
    q = np.clip(q, t[0], t[-1])
    r = unpack(call(c, q, t, y, u, **kw), 3)
    W = weights(t, q, c["kind"]) if c["kind"] != "nearest" else None
    if W is not None:
        close_el(r[1], W.dot(y), "in-range values", rtol=1e-12,
                 atol=tolerance(t, W) * (np.abs(W) > 0).dot(np.abs(y)))


@law("C11", case(["linear"]), quick=900, nontrivial=nt, classify=cls)
def sensitivities_of_boundary_propagation(c):
    """fill_unc="extrapolate": unit weight of the boundary node; uncertainty = sqrt(C^2 u^2)"""
    t, y, u, q = build(c)
    kw = dict(fill_unc="extrapolate", returnC=True)
    fv = fill_args(c["fv"], "fill_value", kw)
    if fv is not None or c["be"] == "False":
        kw["bounds_error"] = False
    tn, yn, un, C = unpack(call(c, q, t, y, u, **kw), 4)
    lo, hi = q < t[0], q > t[-1]
    o = lo | hi
    W = np.zeros((len(q), len(t)))
    W[lo, 0] = 1
    W[hi, -1] = 1
    if np.any(~o):
        W[~o] = weights(t, q[~o], "linear")
    if c.get("unsorted"):
        p = np.random.RandomState(c["out"] + 1).permutation(len(t))
    else:
        p = np.arange(len(t))
    C = arr(C, W.shape, "sensitivities")
    rt = tolerance(t, W)
    Wp = W[:, p]
    expect(np.array_equal(C[o], Wp[o]), "sensitivities of out-of-range queries")
    close_el(C, Wp, "sensitivities", atol=rt)
    close_el(un, np.sqrt((W ** 2).dot(np.asarray(u, float) ** 2)), "uncertainties",
             rtol=1e-12, atol=rt * (np.abs(W) > 0).dot(u))
    yn = arr(yn, q.shape, "values", finite=False)
    fv = (y[0], y[-1]) if fv is None else fv
    same(yn[o], np.where(lo, fv[0], fv[1]).astype(float)[o], "values")


enlarge(policy_is_applied, 32, n=gen.large(30, 1500), q__m=gen.large(40, 300))
