"""Small input builders driven by a RandomState (for the registry of public functions)."""
import numpy as np

from . import gen

CK = ("ident", "diag", "full", "rank1", "rank2", "ar", "full", "diagz", "spiky", "zero", "graded")


def s(r):
    return int(r.randint(0, 10 ** 6))


def signal(r, n):
    k = gen.VKINDS[r.randint(0, len(gen.VKINDS))]
    v = gen.vec(dict(k=k, s=s(r), a=1.0), n)
    if k in ("int", "const") and r.rand() < 0.5:
        return v.astype(int)
    return v


def unc(r, n):
    k = ("pos", "const", "ramp", "zerosome", "one")[r.randint(0, 5)]
    return gen.uvec(dict(k=k, s=s(r), a=1.0), n)


def covm(r, n, dtype=None, kinds=CK):
    if dtype is None and r.rand() < 0.1:
        A = r.randint(-2, 3, (n, n))
        return A.dot(A.T)
    a = (1.0, 1.0, 1e-3, 1e3)[r.randint(0, 4)] if kinds is CK else 1.0
    return gen.cov(dict(k=kinds[r.randint(0, len(kinds))], s=s(r), a=a), n)


def acov(r, n, m):
    return gen.autocov(dict(k=("white", "ar", "ma", "cos")[r.randint(0, 4)], s=s(r), a=1.0), n, m)


def fir_noise(r, n):
    """uncertainty of a signal whose stationary past is a valid process"""
    k = r.randint(0, 4)
    if k == 0:
        return (0.37, 2.0, 0.0)[r.randint(0, 3)], "corr"
    if k == 1:
        return unc(r, n), "diag"
    if k == 2:  # autocovariance of finite support: valid when continued by zeros
        c = gen.autocov(dict(k=("white", "ma", "ma")[r.randint(0, 3)], s=s(r), a=1.0), n, min(n, r.randint(1, 20)))
        return (np.r_[c, np.zeros(r.randint(0, 3))] if r.rand() < 0.3 else c), "corr"
    if r.rand() < 0.5:  # white
        return np.eye(n) * 0.5, "corr"
    return np.diag(unc(r, n) ** 2), "corr"


def grid(r, n):
    k = r.randint(0, 4)
    d = np.ones(n) if k == 0 else r.randint(1, 5, n).astype(float) if k == 1 else 0.05 + r.rand(n)
    return np.cumsum(d) - d[0] + (0.0, -2.0, 100.0)[r.randint(0, 3)]


def polar_cart(r, M):
    A = np.exp(r.uniform(-1.5, 1.5, M))
    P = r.uniform(-np.pi, np.pi, M)
    return A, P, np.r_[A * np.cos(P), A * np.sin(P)]


def sos_resp(r):
    M = r.randint(3, 9)
    S, d, f0 = 0.5 + r.rand(), r.uniform(0.02, 0.8), (1.0, 100.0, 36e3)[r.randint(0, 3)]
    f = np.linspace(0.2, 2.0, M) * f0
    H = S * f0 ** 2 / (f0 ** 2 - f ** 2 + 2j * d * f0 * f)
    return f, np.r_[H.real, H.imag]


def stable(r, p):
    return gen.stable_poly(s(r), p, 0.8)
