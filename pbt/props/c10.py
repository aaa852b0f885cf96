"""C10: one-dimensional interpolation with uncertainties, inside the node range."""
import bisect

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, close_el, enlarge, expect, law, unpack

RULE = "at least 3 nodes and at least one query strictly between nodes; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis) against an explicit per-query reference interpolator, its Lagrange weights and order metamorphic relations"
KINDS = ["linear", "linear", "linear", "previous", "next", "nearest"]


def I():
    from PyDynamic.uncertainty import interpolate

    return interpolate


def grid(spec, n):
    """strictly increasing nodes"""
    r = np.random.RandomState(spec["s"] + 3)
    k = spec["k"]
    if k == "equi":
        d = np.ones(n)
    elif k == "int":
        d = r.randint(1, 5, n).astype(float)
    elif k == "rand":
        d = 0.05 + r.rand(n)
    else:  # strongly varying steps
        d = 10.0 ** r.uniform(-3, 1, n)
    t = np.cumsum(d) - d[0]
    return (t + spec["o"]) * spec["a"]


def gridspec():
    return gen.fd(k=st.sampled_from(["equi", "int", "rand", "rand", "wild"]), s=gen.seeds(),
                  o=st.sampled_from([0.0, 0.0, -2.0, 100.0, -3.5, 1e6, -3e5]),
                  a=st.sampled_from([1.0, 1.0, 1e-3, 50.0, 1e-9, 1e7]))


def queries(spec, t, inside=True):
    """queries in the node range: nodes, interior points, both ends, duplicates"""
    r = np.random.RandomState(spec["s"] + 9)
    m = spec["m"]
    out = np.empty(m)
    n = len(t)
    for i in range(m):
        k = r.randint(0, 6)
        j = r.randint(0, n - 1)
        if k == 0:
            out[i] = t[r.randint(0, n)]
        elif k == 1:
            out[i] = t[0] if r.rand() < 0.5 else t[-1]
        elif k == 2 and i:
            out[i] = out[r.randint(0, i)]
        else:
            out[i] = t[j] + (t[j + 1] - t[j]) * r.choice([0.25, 0.7, r.uniform(0.02, 0.48),
                                                         r.uniform(0.52, 0.98), 1e-3, 1 - 1e-3,
                                                         1e-6, 1 - 1e-6])
    if spec["sort"]:
        out = np.sort(out)
    return np.clip(out, t[0], t[-1])


def qspec():
    return gen.fd(s=gen.seeds(), m=gen.sizes(1, 8, 40), sort=st.booleans())


def weights(t, q, kind):
    """(M, N) matrix of the linear map from node values to interpolated values;
    one query per row, computed by plain bracketing"""
    W = np.zeros((len(q), len(t)))
    nodes = [float(v) for v in t]
    for i, x in enumerate(q):
        j = bisect.bisect_left(nodes, x)
        if j < len(nodes) and nodes[j] == x:
            W[i, j] = 1.0
            continue
        j -= 1
        if kind == "previous":
            W[i, j] = 1
        elif kind == "next":
            W[i, j + 1] = 1
        elif kind == "nearest":
            W[i, j if x - t[j] < t[j + 1] - x else j + 1] = 1
        else:
            lam = (x - t[j]) / (t[j + 1] - t[j])
            W[i, j] = 1 - lam
            W[i, j + 1] = lam
    return W


def case(kinds=KINDS):
    return gen.fd(n=gen.sizes(2, 8, 40), t=gridspec(), q=qspec(), kind=st.sampled_from(kinds),
                  y=gen.vspec(wide=True), u=gen.uspec(wide=True),
                  form=st.sampled_from(["arrays", "arrays", "lists", "nocopy", "int"]))


def build(c):
    n = c["n"]
    t = grid(c["t"], n)
    if c["form"] == "int" and c["t"]["k"] == "int":
        t = np.cumsum(np.random.RandomState(c["t"]["s"]).randint(1, 6, n)) - 7
    y = gen.vec(c["y"], n)
    u = gen.uvec(c["u"], n)
    q = queries(c["q"], t)
    if c["kind"] == "nearest":  # exact ties are not decided by the documentation
        for i, x in enumerate(q):
            d = np.sort(np.abs(t - x))
            if len(d) > 1 and d[1] - d[0] <= 1e-9 * d[1]:
                q[i] = t[np.argmin(np.abs(t - x))]
    if c["form"] == "int":
        r = np.random.RandomState(c["y"]["s"])
        y = r.randint(-50, 50, n)
        u = r.randint(0, 9, n)
    return t, y, u, q


def nt(c):
    return c["n"] >= 3 and c["q"]["m"] >= 3


def cls(c):
    return [f"kind={c['kind']}", f"form={c['form']}"]


def call(c, q, t, y, u, **kw):
    if c["form"] == "lists":
        q, t, y, u = q.tolist(), t.tolist(), y.tolist(), u.tolist()
    if c["form"] == "nocopy":
        kw["copy"] = False
    return I().interp1d_unc(q, t, y, u, c["kind"], **kw)


def tolerance(t, W):
    """cancellation in the differences of large node positions"""
    span = np.min(np.diff(t)) if len(t) > 1 else 1.0
    return 1e-12 + 20 * 2.3e-16 * np.max(np.abs(t)) / span


@law("C10", case(), quick=1600, nontrivial=nt, classify=cls)
def matches_reference_interpolator(c):
    """values and uncertainties equal W y and sqrt(W^2 u^2) for every kind"""
    t, y, u, q = build(c)
    tn, yn, un = unpack(call(c, q, t, y, u), 3)
    W = weights(t, q, c["kind"])
    rt = tolerance(t, W)
    if c["kind"] != "linear":
        expect(np.array_equal(arr(yn, q.shape, "values"), W.dot(y)), "value is not a node value")
        expect(np.array_equal(arr(un, q.shape, "uncertainties"), W.dot(u)),
               "uncertainty is not the one of the chosen node")
    else:
        close_el(yn, W.dot(y), "values", atol=rt * (np.abs(W) > 0).dot(np.abs(y)))
        close_el(un, np.sqrt((W ** 2).dot(np.asarray(u, float) ** 2)), "uncertainties",
                 atol=rt * (np.abs(W) > 0).dot(u))
        expect(np.all(arr(un) >= 0), "negative uncertainty")
    expect(np.array_equal(arr(tn, q.shape, "t_new"), q), "returned times are not the queries")


@law("C10", case(["linear"]), quick=800, nontrivial=nt)
def sensitivities_are_the_derivatives(c):
    """C holds the Lagrange weights, reproduces values and uncertainties"""
    t, y, u, q = build(c)
    tn, yn, un, C = unpack(call(c, q, t, y, u, returnC=True), 4)
    W = weights(t, q, "linear")
    rt = tolerance(t, W)
    C = close(C, W, "sensitivities", rtol=rt)
    close_el(yn, C.dot(y), "values", atol=rt * (np.abs(W) > 0).dot(np.abs(y)))
    close_el(un, np.sqrt((C ** 2).dot(np.asarray(u, float) ** 2)), "uncertainties",
             atol=rt * (np.abs(W) > 0).dot(u))
    t2, y2, u2 = unpack(call(c, q, t, y, u), 3)
    close_el(un, arr(u2), "uncertainty with and without sensitivities",
             atol=rt * (np.abs(W) > 0).dot(u))
    close_el(yn, arr(y2), "values with and without sensitivities")
    expect(np.array_equal(arr(tn), q), "returned times are not the queries")


@law("C10", case(), quick=1000, nontrivial=nt, classify=cls)
def order_of_nodes_and_queries_is_irrelevant(c):
    """permuted nodes (assume_sorted=False) and permuted queries give permuted results"""
    t, y, u, q = build(c)
    r = np.random.RandomState(c["t"]["s"])
    pn = r.permutation(len(t))
    pq = r.permutation(len(q))
    base = unpack(call(c, q, t, y, u, assume_sorted=True), 3)
    perm = unpack(call(c, q[pq], t[pn], y[pn], u[pn], assume_sorted=False), 3)
    for b, p, w in zip(base, perm, ("times", "values", "uncertainties")):
        expect(np.array_equal(arr(b)[pq], arr(p, q.shape, w)), f"{w} depend on the order")
    if c["kind"] == "linear":
        C = arr(unpack(call(c, q, t, y, u, returnC=True), 4)[3])
        Cp = unpack(call(c, q[pq], t[pn], y[pn], u[pn], assume_sorted=False, returnC=True), 4)
        expect(np.array_equal(C[pq][:, pn], arr(Cp[3], C.shape, "sensitivities")),
               "sensitivities depend on the order")
        close(Cp[2], arr(base[2])[pq], "uncertainties with sensitivities",
              rtol=tolerance(t, C))


@law("C10", case(), quick=500, nontrivial=lambda c: c["n"] >= 3, classify=cls)
def nodes_reproduce_themselves(c):
    """querying the nodes returns the supplied values and uncertainties"""
    t, y, u, q = build(c)
    r = np.random.RandomState(c["q"]["s"])
    i = r.randint(0, len(t), len(q))
    tn, yn, un = unpack(call(c, t[i], t, y, u), 3)
    close_el(yn, np.asarray(y, float)[i], "values at nodes", rtol=1e-12,
             atol=4e-16 * np.max(np.abs(y)))
    close_el(un, np.asarray(u, float)[i], "uncertainties at nodes", rtol=1e-12)
    if c["kind"] == "linear":
        C = unpack(call(c, t[i], t, y, u, returnC=True), 4)[3]
        close(C, np.eye(len(t))[i], "sensitivities at nodes", rtol=1e-12)


@law("C10", case(["linear"]), quick=500, nontrivial=nt)
def linear_metamorphic(c):
    """affine data are reproduced; scaling y, u and the time axis scales the result"""
    t, y, u, q = build(c)
    r = np.random.RandomState(c["u"]["s"])
    a, b = r.randn(2)
    _, yn, _ = unpack(call(c, q, t, a * t + b, u), 3)
    m = np.max(np.abs(a * t)) + abs(b)
    close(yn, a * q + b, "affine data", atol=1e-11 * m + 0.0, rtol=0)
    k = float(r.choice([2.0, 4.0, 0.5]))
    base = unpack(call(c, q, t, y, u), 3)
    sc = unpack(call(c, q * k, t * k, -k * np.asarray(y, float), k * np.asarray(u, float)), 3)
    close_el(sc[1], -k * arr(base[1]), "scaled values", rtol=1e-12,
             atol=1e-13 * np.max(np.abs(y)))
    close_el(sc[2], k * arr(base[2]), "scaled uncertainties", rtol=1e-12)


enlarge(matches_reference_interpolator, 40, n=gen.large(40, 2000), q__m=gen.large(40, 500))
enlarge(sensitivities_are_the_derivatives, 32, n=gen.large(40, 600), q__m=gen.large(40, 300))
