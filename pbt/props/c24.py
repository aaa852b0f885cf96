"""C24: impulse invariant discretisation."""
from math import factorial

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Violation, arr, close, expect, law, probe, raises, unpack

RULE = "at least two poles (a complex pair counts as two); distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): systems generated by poles and residues, impulse response of the digital filter (explicit recursion) against the sampled analytic impulse response; metamorphic relations"


def F():
    import importlib

    # the package binds the name of the module to its function
    return importlib.import_module("PyDynamic.misc.impinvar")


def case():
    return gen.fd(s=gen.seeds(), nr=st.integers(0, 3), nc=st.integers(0, 3), dbl=st.integers(0, 3),
                  fs=st.sampled_from([1, 1.0, 10.0, 1e3, 48000, 0.5]),
                  lead=st.sampled_from([1.0, 1.0, 2.0, -0.5]), unstable=st.integers(0, 6),
                  integ=st.integers(0, 8), rk=st.sampled_from(["rand", "rand", "last", "zerosum"]),
                  intc=st.integers(0, 4))


def build(c):
    """poles p (multiplicity m) and residues, in units of fs; impulse response as a
    function of continuous time n (samples)"""
    r = np.random.RandomState(c["s"])
    if c["dbl"] and c["fs"] > 10:  # known finding double-pole-units
        c["dbl"] = 0
    terms = []  # (pole, [residue of 1/(s-p), of 1/(s-p)^2])
    used = []

    def pick(pair):
        for _ in range(200):
            re = -10 ** r.uniform(-1.3, 0.5)
            im = 10 ** r.uniform(-1.0, 0.4) if pair else 0.0
            p = complex(re, im)
            if all(abs(p - q) > 0.12 for q in used):
                used.append(p)
                return p
        return None

    nr, nc = c["nr"], c["nc"]
    if nr + nc == 0:
        nr = 1
    dbl = c["dbl"]
    for k in range(nr):
        p = pick(False)
        if p is None:
            continue
        if k == 0 and c["integ"] == 0:
            p = 0.0 + 0j
            used.append(p)
        if k == 1 and c["unstable"] == 0:
            p = complex(0.1 + 0.1 * r.rand(), 0)
            used.append(p)
        res = [r.uniform(-2, 2) + 0j]
        if k == 0 and dbl == 1:
            res.append(r.uniform(0.5, 2) + 0j)
        terms.append((p, res))
    for k in range(nc):
        p = pick(True)
        if p is None:
            continue
        q = complex(r.uniform(-1, 1), r.uniform(-1, 1))
        res = [q]
        if k == 0 and dbl == 2 and nr + nc <= 3:
            res.append(complex(r.uniform(-1, 1), 0.3 + r.rand()))
        terms.append((p, res))
        terms.append((np.conj(p), [np.conj(x) for x in res]))
    if c["rk"] == "zerosum":  # h(0) = 0: relative degree of at least two
        s0 = sum(t[1][0] for t in terms).real
        for i, t in enumerate(terms):
            if t[0].imag == 0:
                t[1][0] -= s0
                break
    if c["rk"] == "last" and len(terms) > 1 and terms[0][0].imag == 0 and len(terms[0][1]) == 1:
        terms[0][1][0] = 0.7 + 0j
    return terms


def h_cont(terms, t):
    h = np.zeros(len(t), complex)
    for p, res in terms:
        for m, q in enumerate(res):
            h += q * t ** m / factorial(m) * np.exp(p * t)
    return h.real


def transfer(terms, fs, lead):
    """numerator and denominator (in s, real units) of sum res/(s - p)^m"""
    den = np.ones(1, complex)
    for p, res in terms:
        for _ in res:
            den = np.polymul(den, [1, -p * fs])
    num = np.zeros(1, complex)
    for i, (p, res) in enumerate(terms):
        rest = np.ones(1, complex)
        for j, (q, rq) in enumerate(terms):
            if j != i:
                for _ in rq:
                    rest = np.polymul(rest, [1, -q * fs])
        for m, x in enumerate(res):
            # residue in units of fs: x * fs^(m+1) / (s - p)^(m+1)
            part = rest * x * fs ** (m + 1)
            for _ in range(len(res) - 1 - m):
                part = np.polymul(part, [1, -p * fs])
            num = np.polyadd(num, part)
    num, den = np.real(num) * lead, np.real(den) * lead
    while len(num) > 1 and abs(num[0]) <= 1e-12 * np.max(np.abs(num) / fs ** np.arange(len(num))) :
        num = num[1:]
    return num, den


def order(terms):
    return sum(len(t[1]) for t in terms)


def nt(c):
    return c["nr"] + 2 * c["nc"] >= 2


def cls(c):
    t = build(c)
    return [f"order={order(t)}", "double" if any(len(x[1]) > 1 for x in t) else "simple",
            f"residues={c['rk']}"]


def recursion(b, a, n):
    y = np.zeros(n)
    for i in range(n):
        s = b[i] if i < len(b) else 0.0
        for k in range(1, min(len(a), i + 1)):
            s -= a[k] * y[i - k]
        y[i] = s / a[0]
    return y


def call(c, terms, fn=None, **kw):
    fs = c["fs"]
    num, den = transfer(terms, float(fs), c["lead"])
    args = (num, den) if fs == 1 and c["s"] % 2 else (num, den, fs)
    b, a = unpack((fn or F().impinvar)(*args, **kw), 2)
    b, a = arr(b, None, "b"), arr(a, None, "a")
    expect(b.ndim == 1 and a.ndim == 1 and len(a) >= 1 and len(b) >= 1, "coefficients are not vectors")
    return b, a


def tolerance(terms):
    """double poles are found by a root search with a relative accuracy of about 1e-8"""
    dbl = any(len(t[1]) > 1 for t in terms)
    return 2e-4 if dbl else 1e-6


@law("C24", case(), quick=1200, nontrivial=nt, classify=cls)
def impulse_response_is_sampled(c):
    """y[n] = h(n/fs)/fs for all n (h in physical units), coefficients real and normalised"""
    terms = build(c)
    b, a = call(c, terms)
    N = 24
    t = np.arange(N, dtype=float)
    # residues are in units of fs: h(t) = fs * hs(fs t), and the step scales by 1/fs
    want = h_cont(terms, t)
    expect(abs(a[0] - 1) <= 1e-9, f"leading coefficient {a[0]!r}")
    expect(len(a) == order(terms) + 1, f"{len(a) - 1} poles instead of {order(terms)}")
    got = recursion(b, a, N)
    scale = sum(sum(abs(x) for x in res) for p, res in terms)
    grow = max(1.0, np.max(np.abs(want)) / scale)
    close(got, want, "impulse response", rtol=tolerance(terms), scale=scale * grow)


@law("C24", gen.fd(s=gen.seeds(), m=st.sampled_from([3, 4, 2]), pair=st.booleans(), simple=st.integers(0, 2),
                   fs=st.sampled_from([1, 1.0, 0.5]), lead=st.sampled_from([1.0, 2.0, -0.5])), quick=500,
     classify=lambda c: [f"multiplicity={c['m']}", "pair" if c["pair"] else "real"])
def poles_of_higher_multiplicity_are_sampled(c):
    """as above for one real pole of multiplicity up to four or one complex pair of
    multiplicity up to three, slow compared with the sampling (the range in which the
    absolute tolerances of the root search recognise them)"""
    r = np.random.RandomState(c["s"])
    m = min(c["m"], 3) if c["pair"] else c["m"]
    p = -r.uniform(0.1, 0.8) + (1j * r.uniform(0.3, 1.0) if c["pair"] else 0j)
    res = [complex(r.uniform(-2, 2), r.uniform(-1, 1) if c["pair"] else 0.0) for _ in range(m)]
    if abs(res[-1]) < 0.1:
        res[-1] = 1.0 + 0j
    terms = [(p, res)]
    if c["pair"]:
        terms.append((np.conj(p), [np.conj(x) for x in res]))
    for k in range(c["simple"] if not c["pair"] else min(c["simple"], 1)):
        terms.append((-1.6 - 0.7 * k + 0j, [r.uniform(-2, 2) + 0j]))
    b, a = call(c, terms)
    t = np.arange(24, dtype=float)
    want = h_cont(terms, t)
    expect(len(a) == order(terms) + 1, f"{len(a) - 1} poles instead of {order(terms)}")
    close(recursion(b, a, 24), want, "impulse response", rtol=1e-6, scale=np.max(np.abs(want)) + sum(map(abs, res)))


@law("C24", case(), quick=500, nontrivial=nt, classify=cls)
def poles_are_mapped_exponentially(c):
    """the digital poles are exp(p/fs); stable systems stay stable"""
    terms = build(c)
    b, a = call(c, terms)
    p = [q for q, res in terms for _ in res]
    want = np.real(np.poly(np.exp(np.array(p))))
    expect(len(a) == len(want), "number of poles")
    close(a, want, "denominator", rtol=tolerance(terms), scale=np.sum(np.abs(want)))
    if np.max(np.real(p)) < -0.02 and not any(len(t[1]) > 1 for t in terms):
        expect(np.all(np.abs(np.roots(a)) < 1), "stable system became unstable")


@law("C24", case(), quick=300, nontrivial=nt)
def scaling_of_the_description_does_not_matter(c):
    """(k b, k a) describes the same system; time and frequency scaled together too; the
    system is linear in the numerator"""
    terms = build(c)
    b, a = call(c, terms)
    tol = tolerance(terms) * 10
    N = 16
    y = recursion(b, a, N)
    sc = sum(sum(abs(x) for x in res) for p, res in terms)
    sc = max(sc, np.max(np.abs(y)))
    num, den = transfer(terms, float(c["fs"]), 1.0)
    b2, a2 = unpack(F().impinvar(num * 4.0, den * 4.0, c["fs"]), 2)
    close(recursion(arr(b2), arr(a2), N), y, "scaled description", rtol=tol, scale=sc)
    b3, a3 = unpack(F().impinvar(num * -3.0, den, c["fs"]), 2)
    close(recursion(arr(b3), arr(a3), N), -3 * y, "scaled numerator", rtol=tol, scale=3 * sc)
    c4 = dict(c, fs=7.0)
    b4, a4 = call(c4, terms)
    close(recursion(b4, a4, N), y, "other unit of time", rtol=tol, scale=sc)


@law("C24", case(), quick=250, nontrivial=nt)
def causal_variant_starts_at_zero(c):
    """impinvar_causal: same impulse response but h[0] = 0"""
    terms = build(c)
    b, a = call(c, terms)
    bc, ac = call(c, terms, fn=F().impinvar_causal)
    y, yc = recursion(b, a, 20), recursion(bc, ac, 20)
    y = y.copy()
    y[0] = 0.0
    sc = max(sum(sum(abs(x) for x in res) for p, res in terms), np.max(np.abs(y)))
    close(yc, y, "impulse response of the causal variant", rtol=1e-6, scale=sc)


@law("C24", case(), quick=200, nontrivial=nt)
def not_strictly_proper_systems_are_rejected(c):
    """numerator order >= denominator order: ValueError"""
    terms = build(c)
    num, den = transfer(terms, float(c["fs"]), 1.0)
    k = 0.5 + (c["s"] % 7)
    raises(lambda: F().impinvar(np.polyadd(num, k * den), den, c["fs"]), ValueError, "impinvar")


@probe("impinvar-double-pole-units")
def double_pole_in_large_units():
    """a double complex pole of 1e4..1e5 rad/s is not recognised (absolute tolerances)"""
    c = {"dbl": 0, "fs": 48000, "integ": 1, "lead": 1.0, "nc": 1, "nr": 0, "rk": "rand", "s": 0,
         "unstable": 1}
    terms = build(c)
    terms = [(p, [r[0], r[0] * 0.7]) for p, r in terms]
    try:
        b, a = call(c, terms)
        close(recursion(b, a, 8), h_cont(terms, np.arange(8.0)), "impulse response", rtol=1e-3)
    except Violation as v:
        return str(v)
    return None
