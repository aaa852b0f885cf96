"""Generators.  Cases hold small *specs*; `vec` / `cov` expand them deterministically."""
import numpy as np
from hypothesis import strategies as st

from .core import THOROUGH

VKINDS = ["randn", "int", "const", "ramp", "impulse", "alt", "sine", "sparse", "pos", "step"]
CKINDS = ["ident", "diag", "full", "rank1", "rank2", "ar", "diagz", "spiky", "zero", "graded"]


def seeds():
    return st.integers(0, 10 ** 6)


def sizes(lo, small, mid=None, big=None):
    """mostly small, sometimes mid, rarely big sizes (all inclusive)"""
    alts = [st.integers(lo, small)] * 5
    if mid:
        alts += [st.integers(lo, mid)] * 2
    if big:
        alts += [st.integers(lo, big)]
    return st.one_of(*alts)


EDGES = sorted({2 ** k + d for k in range(5, 13) for d in (-1, 0, 1)} | {100, 101, 200, 250, 300, 500, 600, 800}
               | {1000, 1001, 1200, 1500, 2000, 3000, 5000})


def large(lo, hi):
    """sizes far above the usual ones, often next to powers of two or round numbers"""
    edges = [k for k in EDGES if lo <= k <= hi]
    return st.one_of(st.integers(lo, hi), st.sampled_from(edges)) if edges else st.integers(lo, hi)


def amps(wide=True):
    if wide:
        return st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e3, 1e-6, 1e6, 7.5, 1e-10, 1e10])
    return st.sampled_from([1.0, 1.0, 0.1, 10.0])


def vspec(kinds=VKINDS, wide=False, scaled=True):
    """spec of a vector whose length is given on expansion"""
    return st.fixed_dictionaries(dict(
        k=st.sampled_from(kinds), s=seeds(),
        a=amps(wide) if scaled else st.just(1.0)))


def vec(spec, n):
    r = np.random.RandomState(spec["s"])
    k = spec["k"]
    i = np.arange(n, dtype=float)
    if k == "randn":
        v = r.randn(n)
    elif k == "int":
        v = r.randint(-9, 10, n).astype(float)
    elif k == "const":
        v = np.full(n, 1.0 + r.randint(1, 5))
    elif k == "ramp":
        v = (i + 1) * (1 + r.randint(0, 3)) / max(n, 1)
    elif k == "impulse":
        v = np.zeros(n)
        if n:
            v[r.randint(0, n)] = 1.0
    elif k == "alt":
        v = np.where(i % 2 == 0, 1.0, -1.0) * (1 + r.randint(0, 3))
    elif k == "sine":
        v = np.sin(0.1 + i * (0.1 + r.rand()))
    elif k == "sparse":
        v = np.where(r.rand(n) < 0.3, r.randn(n), 0.0)
    elif k == "pos":
        v = 0.1 + r.rand(n)
    elif k == "step":
        v = np.where(i < r.randint(0, n + 1), 0.5, 2.0)
    elif k == "zero":
        v = np.zeros(n)
    else:
        raise KeyError(k)
    return v * spec.get("a", 1.0)


def uspec(kinds=("pos", "const", "ramp", "zerosome", "one"), wide=False):
    """spec of a vector of standard uncertainties (non-negative)"""
    return st.fixed_dictionaries(dict(k=st.sampled_from(list(kinds)), s=seeds(),
                                      a=amps(wide)))


def uvec(spec, n):
    r = np.random.RandomState(spec["s"] + 17)
    k = spec["k"]
    if k == "zerosome":
        v = np.where(r.rand(n) < 0.4, 0.0, 0.1 + r.rand(n))
    elif k == "one":
        v = np.zeros(n)
        if n:
            v[r.randint(0, n)] = 0.7
    elif k == "zero":
        v = np.zeros(n)
    elif k == "pos":
        v = 0.1 + r.rand(n)
    elif k == "const":
        v = np.full(n, 0.3)
    elif k == "ramp":
        v = (np.arange(n) + 1.0) / max(n, 1)
    else:
        raise KeyError(k)
    return np.abs(v) * spec.get("a", 1.0)


def cspec(kinds=CKINDS, wide=False):
    return st.fixed_dictionaries(dict(k=st.sampled_from(kinds), s=seeds(), a=amps(wide)))


def cov(spec, n):
    """symmetric positive semi-definite n x n matrix"""
    r = np.random.RandomState(spec["s"] + 31)
    k = spec["k"]
    if k == "ident":
        C = np.eye(n)
    elif k == "diag":
        C = np.diag(0.05 + r.rand(n))
    elif k == "diagz":
        C = np.diag(np.where(r.rand(n) < 0.5, 0.0, 0.05 + r.rand(n)))
    elif k == "full":
        A = r.randn(n, n + 1)
        C = A.dot(A.T) / (n + 1)
    elif k == "rank1":
        a = r.randn(n)
        C = np.outer(a, a)
    elif k == "rank2":
        A = r.randn(n, 2)
        C = A.dot(A.T)
    elif k == "ar":
        rho = r.uniform(-0.95, 0.95)
        i = np.arange(n)
        C = rho ** np.abs(i[:, None] - i[None, :])
        C = C * (0.5 + r.rand())
    elif k == "spiky":
        C = 1e-3 * np.eye(n)
        if n:
            C[r.randint(0, n), :] = 0
            i = r.randint(0, n)
            C[i, :] = 0
            C[:, i] = 0
            C[i, i] = 5.0
            C = (C + C.T) / 2
    elif k == "graded":
        s = 10.0 ** (-3 * np.arange(n) / max(n - 1, 1))
        A = r.randn(n, n + 1)
        C = A.dot(A.T) / (n + 1) * np.outer(s, s)
    elif k == "zero":
        C = np.zeros((n, n))
    else:
        raise KeyError(k)
    C = (C + C.T) / 2
    return C * spec.get("a", 1.0) ** 2


def autocov(spec, n, m):
    """first m values of a valid autocovariance sequence usable for n samples"""
    r = np.random.RandomState(spec["s"] + 5)
    k = spec["k"]
    if k == "white":
        c = np.zeros(m)
        c[0] = 0.5 + r.rand()
    elif k == "ar":
        rho = r.uniform(-0.9, 0.9)
        c = rho ** np.arange(m)
    elif k == "ma":  # finite support: autocorrelation of an MA kernel
        q = max(1, min(m, r.randint(1, 6)))
        h = r.randn(q)
        full = np.correlate(h, h, "full")[q - 1:]
        c = np.zeros(m)
        c[:q] = full
    elif k == "cos":
        c = 0.5 * np.cos((0.2 + r.rand()) * np.arange(m))
        c[0] += 0.3
    else:
        raise KeyError(k)
    return c * spec.get("a", 1.0) ** 2


def acspec():
    return st.fixed_dictionaries(dict(k=st.sampled_from(["white", "ar", "ma", "cos"]),
                                      s=seeds(), a=amps(False)))


def stable_poly(seed, order, rmax=0.95):
    """real polynomial (leading coefficient 1) with all roots of modulus < rmax"""
    r = np.random.RandomState(seed + 77)
    roots = []
    while len(roots) < order:
        if order - len(roots) >= 2 and r.rand() < 0.6:
            z = r.uniform(0.05, rmax) * np.exp(1j * r.uniform(0.1, np.pi - 0.1))
            roots += [z, np.conj(z)]
        else:
            roots.append(r.uniform(-rmax, rmax))
    return np.real(np.poly(roots)) if order else np.ones(1)


def fd(**kw):
    return st.fixed_dictionaries(kw)


def nice(lo, hi, steps=1000):
    """floats on a grid: no denormals, no accidental cancellation at the last bit"""
    return st.integers(0, steps).map(lambda k: lo + (hi - lo) * k / float(steps))
