"""C03: convolution with uncertainty."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage

from .. import gen
from ..core import arr, close, law, unpack, expect

RULE = "both signals have at least 2 samples and at least one has a non-zero covariance; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis) against an explicit bilinear model and NumPy/SciPy"
NP = ["full", "valid", "same"]
ND = ["nearest", "reflect", "mirror"]
PAD = {"nearest": "edge", "reflect": "symmetric", "mirror": "reflect"}


def C(*a, **k):
    from PyDynamic.uncertainty.propagate_convolution import convolve_unc
    y, U = unpack(convolve_unc(*a, **k), 2)
    return y, U


def strat(a, b, modes, A=None, B=None):
    return gen.fd(n1=gen.sizes(1, a, A), n2=gen.sizes(1, b, B), x1=gen.vspec(wide=True),
                  x2=gen.vspec(wide=True), u1=st.one_of(st.none(), gen.cspec()),
                  u2=st.one_of(st.none(), gen.cspec()), mode=st.sampled_from(modes),
                  kw=st.booleans())


def nt(c):
    def z(u):
        return u is None or u["k"] == "zero"
    return c["n1"] >= 2 and c["n2"] >= 2 and not (z(c["u1"]) and z(c["u2"]))


def cls(c):
    return [f"mode={c['mode']}", f"u1={c['u1'] is not None}", f"u2={c['u2'] is not None}",
            "n1<n2" if c["n1"] < c["n2"] else "n1>=n2", f"even_kernel={c['n2'] % 2 == 0}"]


def full_maps(n1, n2):
    """index pairs (i, j) -> i + j of the full convolution as boolean tensor rows"""
    K = n1 + n2 - 1
    T = np.zeros((K, n1, n2))
    for i in range(n1):
        for j in range(n2):
            T[i + j, i, j] = 1.0
    return T


def model(x1, U1, x2, U2, T):
    """y_k = sum_ij T_kij x1_i x2_j; full second-order covariance for independent inputs"""
    A = np.tensordot(T, x2, axes=(2, 0))  # K x n1
    B = np.tensordot(T, x1, axes=(1, 0))  # K x n2
    y = A.dot(x1)
    K = len(y)
    U = np.zeros((K, K))
    if U1 is not None:
        U += A.dot(U1).dot(A.T)
    if U2 is not None:
        U += B.dot(U2).dot(B.T)
    if U1 is not None and U2 is not None:
        W = np.einsum("kij,ip->kpj", T, U1)
        W = np.einsum("kpj,jq->kpq", W, U2)
        U += np.einsum("kpq,lpq->kl", W, T)
    return y, U


def fast_model(x1, U1, x2, U2):
    """full convolution of long signals: dense linear maps, the product term as the
    two-dimensional convolution of the covariances"""
    n1, n2 = len(x1), len(x2)
    K = n1 + n2 - 1
    A, B = np.zeros((K, n1)), np.zeros((K, n2))
    for i in range(n1):
        A[i:i + n2, i] = x2
    for j in range(n2):
        B[j:j + n1, j] = x1
    U = np.zeros((K, K))
    if U1 is not None:
        U += A.dot(U1).dot(A.T)
    if U2 is not None:
        U += B.dot(U2).dot(B.T)
    if U1 is not None and U2 is not None:
        P, Q = (U1, U2) if n1 >= n2 else (U2, U1)
        k = len(Q)
        for a in range(k):
            for b in range(k):
                if Q[a, b]:
                    U[a:a + len(P), b:b + len(P)] += Q[a, b] * P
    return A.dot(x1), U


def signals(c):
    x1 = gen.vec(c["x1"], c["n1"])
    x2 = gen.vec(c["x2"], c["n2"])
    U1 = None if c["u1"] is None else gen.cov(c["u1"], c["n1"]) * c["x1"]["a"] ** 2
    U2 = None if c["u2"] is None else gen.cov(c["u2"], c["n2"]) * c["x2"]["a"] ** 2
    return x1, U1, x2, U2


def scales(x1, U1, x2, U2):
    a, b = np.max(np.abs(x1)), np.max(np.abs(x2))
    n = min(len(x1), len(x2))
    n2 = len(x2)
    u1 = 0 if U1 is None else np.max(np.abs(U1))
    u2 = 0 if U2 is None else np.max(np.abs(U2))
    m = max(n, n2)
    return a * b * m, m ** 2 * (b * b * u1 + a * a * u2 + u1 * u2)


def do(c, x1, U1, x2, U2):
    if c["kw"]:
        return C(x1=x1, U1=U1, x2=x2, U2=U2, mode=c["mode"])
    if c["mode"] == "full":
        return C(x1, U1, x2, U2)
    return C(x1, U1, x2, U2, c["mode"])


@law("C03", strat(9, 7, NP, 16, 16), quick=800, nontrivial=nt, classify=cls)
def numpy_modes(c):
    """full, valid, same: numpy.convolve and the bilinear covariance"""
    x1, U1, x2, U2 = signals(c)
    n1, n2 = len(x1), len(x2)
    y, U = do(c, x1, U1, x2, U2)
    yr, Ur = model(x1, U1, x2, U2, full_maps(n1, n2))
    K = len(yr)
    if c["mode"] == "valid":
        lo, ln = min(n1, n2) - 1, max(n1, n2) - min(n1, n2) + 1
    elif c["mode"] == "same":
        lo, ln = (min(n1, n2) - 1) // 2, max(n1, n2)
    else:
        lo, ln = 0, K
    yr, Ur = yr[lo:lo + ln], Ur[lo:lo + ln, lo:lo + ln]
    vs, us = scales(x1, U1, x2, U2)
    close(y, np.convolve(x1, x2, mode=c["mode"]), "values vs numpy.convolve", rtol=1e-10,
          scale=vs)
    close(y, yr, "values", rtol=1e-10, scale=vs)
    close(U, Ur, "covariance", rtol=1e-10, scale=us)


@law("C03", strat(9, 7, ND, 14, 16), quick=800, nontrivial=nt, classify=cls)
def ndimage_modes(c):
    """nearest, reflect, mirror: scipy.ndimage.convolve1d and the padded bilinear covariance"""
    if c["n1"] < 2:
        c = dict(c, n1=2)
    x1, U1, x2, U2 = signals(c)
    n1, n2 = len(x1), len(x2)
    y, U = do(c, x1, U1, x2, U2)
    # explicit boundary extension as a selection matrix, then a valid convolution
    left, right = n2 // 2 + n2, n2 // 2 + n2
    idx = np.pad(np.arange(n1), (left, right), mode=PAD[c["mode"]])
    S = np.zeros((len(idx), n1))
    S[np.arange(len(idx)), idx] = 1.0
    # convolve1d: y[t] = sum_j w[j] x[t + off - j]; off read off SciPy itself
    delta = np.zeros(n2)
    delta[0] = 1.0
    off = int(round(ndimage.convolve1d(np.arange(10.0 * n2), delta)[4 * n2])) - 4 * n2
    T = np.zeros((n1, n1, n2))
    for t in range(n1):
        for j in range(n2):
            T[t, :, j] += S[left + t + off - j]
    yr, Ur = model(x1, U1, x2, U2, T)
    vs, us = scales(x1, U1, x2, U2)
    want = ndimage.convolve1d(x1, x2, mode=c["mode"])
    assert np.max(np.abs(want - yr)) <= 1e-8 * max(vs, 1e-300), "reference models disagree"
    close(y, want, "values vs scipy.ndimage.convolve1d", rtol=1e-10, scale=vs)
    close(U, Ur, "covariance", rtol=1e-10, scale=us)


@law("C03", strat(12, 12, NP), quick=300, nontrivial=nt, classify=cls)
def commutative(c):
    """numpy modes: swapping the operands (with their covariances) changes nothing"""
    x1, U1, x2, U2 = signals(c)
    y, U = do(c, x1, U1, x2, U2)
    z, V = do(c, x2, U2, x1, U1)
    vs, us = scales(x1, U1, x2, U2)
    vs2, us2 = scales(x2, U2, x1, U1)
    z = arr(z)
    close(y, z, "values of the swapped call", rtol=1e-10, scale=max(vs, vs2))
    close(U, arr(V), "covariance of the swapped call", rtol=1e-10, scale=max(us, us2))


@law("C03", strat(9, 7, NP + ND), quick=300, nontrivial=nt, classify=cls)
def none_is_zero(c):
    """a certain operand (None) is the same as an all-zero covariance"""
    if c["n1"] < 2:
        c = dict(c, n1=2)
    x1, U1, x2, U2 = signals(c)
    n1, n2 = len(x1), len(x2)
    y, U = do(c, x1, U1, x2, U2)
    U1z = np.zeros((n1, n1)) if U1 is None else U1
    U2z = np.zeros((n2, n2)) if U2 is None else U2
    z, V = do(c, x1, U1z, x2, U2z)
    vs, us = scales(x1, U1, x2, U2)
    close(y, arr(z), "values", rtol=1e-10, scale=vs)
    close(U, arr(V), "covariance", rtol=1e-10, scale=us)


@law("C03", strat(150, 60, NP + ND), quick=60, thorough=600, nontrivial=nt, classify=cls)
def long_values(c):
    """long signals: values agree with NumPy/SciPy, variances with the direct sums"""
    if c["n1"] < 2:
        c = dict(c, n1=2)
    x1, U1, x2, U2 = signals(c)
    y, U = do(c, x1, U1, x2, U2)
    if c["mode"] in NP:
        want = np.convolve(x1, x2, mode=c["mode"])
    else:
        want = ndimage.convolve1d(x1, x2, mode=c["mode"])
    vs, us = scales(x1, U1, x2, U2)
    close(y, want, "values", rtol=1e-10, scale=vs)
    U = arr(U, (len(want), len(want)), "covariance")
    expect(np.max(np.abs(U - U.T)) <= 1e-9 * us, "covariance is not symmetric")


@law("C03", gen.fd(c=strat(9, 7, NP), n1=gen.large(60, 500), n2=gen.large(30, 120), swap=st.booleans()), quick=32,
     thorough=600, nontrivial=lambda k: nt(k["c"]), classify=lambda k: cls(k["c"]))
def large_numpy_modes(k):
    """long signals and kernels: values and covariance"""
    n = (k["n2"], k["n1"]) if k["swap"] else (k["n1"], k["n2"])
    c = dict(k["c"], n1=n[0], n2=n[1])
    x1, U1, x2, U2 = signals(c)
    y, U = do(c, x1, U1, x2, U2)
    yr, Ur = fast_model(x1, U1, x2, U2)
    a, b = min(n), max(n)
    lo, ln = {"valid": (a - 1, b - a + 1), "same": ((a - 1) // 2, b), "full": (0, a + b - 1)}[c["mode"]]
    vs, us = scales(x1, U1, x2, U2)
    close(y, yr[lo:lo + ln], "values", rtol=1e-10, scale=vs)
    close(U, Ur[lo:lo + ln, lo:lo + ln], "covariance", rtol=1e-10, scale=us)


@law("C03", gen.fd(c=strat(9, 7, ND), n1=gen.large(40, 250), n2=gen.large(16, 60), swap=st.integers(0, 3)), quick=24,
     thorough=400, nontrivial=lambda k: nt(k["c"]), classify=lambda k: cls(k["c"]))
def large_ndimage_modes(k):
    """the same for the modes with extended boundaries"""
    n = (k["n2"], k["n1"] % 100 + 30) if k["swap"] == 0 else (k["n1"], k["n2"])
    c = dict(k["c"], n1=n[0], n2=n[1])
    x1, U1, x2, U2 = signals(c)
    y, U = do(c, x1, U1, x2, U2)
    n1, n2 = n
    left = n2 // 2 + n2
    idx = np.pad(np.arange(n1), (left, left), mode=PAD[c["mode"]])
    V1 = None if U1 is None else U1[np.ix_(idx, idx)]
    yr, Ur = fast_model(x1[idx], V1, x2, U2)
    delta = np.zeros(n2)
    delta[0] = 1.0
    off = int(round(ndimage.convolve1d(np.arange(10.0 * n2), delta)[4 * n2])) - 4 * n2
    lo = left + off
    vs, us = scales(x1, U1, x2, U2)
    want = ndimage.convolve1d(x1, x2, mode=c["mode"])
    assert np.max(np.abs(want - yr[lo:lo + n1])) <= 1e-8 * max(vs, 1e-300), "reference models disagree"
    close(y, want, "values", rtol=1e-10, scale=vs)
    close(U, Ur[lo:lo + n1, lo:lo + n1], "covariance", rtol=1e-10, scale=us)
