"""Slow, explicit reference models used as oracles (no use of PyDynamic)."""
import numpy as np


def fir_ref(x, theta, Ux=None, Ut=None):
    """FIR filter started from the stationary past of x[0]; all covariance terms by
    explicit index sums over an explicitly extended signal."""
    x = np.asarray(x, float)
    theta = np.asarray(theta, float)
    n, m = len(x), len(theta)
    xe = np.concatenate([np.full(m - 1, x[0]), x])  # xe[m-1+t] = x[t]
    # rows of lagged samples: X[t, k] = x[t-k]
    idx = (np.arange(n)[:, None] + (m - 1)) - np.arange(m)[None, :]
    X = xe[idx]
    y = X.dot(theta)
    Uy = np.zeros((n, n))
    if Ux is not None:
        ext = extend_stationary(np.asarray(Ux, float), m - 1)
        T = np.zeros((n, n + m - 1))
        for k in range(m):
            T[np.arange(n), idx[:, k]] += theta[k]
        Uy = Uy + T.dot(ext).dot(T.T)
    if Ut is not None:
        Uy = Uy + X.dot(Ut).dot(X.T)
    if Ux is not None and Ut is not None:
        for k in range(m):
            for l in range(m):
                Uy = Uy + Ut[k, l] * ext[np.ix_(idx[:, k], idx[:, l])]
    return y, Uy


def extend_stationary(U, p):
    """covariance of the signal extended p samples into a stationary past:
    the past (and its relation to the present) is Toeplitz with the autocovariance
    found in the first row/column of U, zero beyond the known lags."""
    n = len(U)
    N = n + p
    i = np.arange(N)
    lag = np.abs(i[:, None] - i[None, :])
    E = np.where(lag < n, U[0, np.minimum(lag, n - 1)], 0.0)
    E[p:, p:] = U
    return E


def lag_matrix(x, m):
    n = len(x)
    X = np.zeros((n, m))
    for k in range(m):
        if k < n:
            X[k:, k] = x[: n - k] if k else x
    return X


def dft_matrix(n_in, N):
    """real matrix mapping a real signal of length n_in (zero padded to N) to
    [Re; Im] of the half spectrum"""
    M = N // 2 + 1
    t = np.arange(n_in)
    k = np.arange(M)
    ph = 2 * np.pi * np.outer(k, t) / N
    return np.vstack([np.cos(ph), -np.sin(ph)])


def idft_matrix(M):
    """real matrix mapping [Re; Im] of the half spectrum (M lines) to N = 2(M-1) samples"""
    N = 2 * (M - 1)
    n = np.arange(N)
    k = np.arange(M)
    w = np.where((k == 0) | (k == M - 1), 1.0, 2.0) / N
    ph = 2 * np.pi * np.outer(n, k) / N
    C = np.cos(ph) * w
    S = -np.sin(ph) * w
    S[:, 0] = 0.0
    S[:, M - 1] = 0.0
    return np.hstack([C, S])


def ri(F):
    return np.concatenate([np.real(F), np.imag(F)])


def cplx(F):
    M = len(F) // 2
    return F[:M] + 1j * F[M:]


def num_jac(f, x, h=1e-6, scale=None):
    """central difference Jacobian with per-component step"""
    x = np.asarray(x, float)
    f0 = np.asarray(f(x), float)
    J = np.zeros((f0.size, x.size))
    for i in range(x.size):
        d = h * max(abs(x[i]), 1e-3 if scale is None else scale)
        xp = x.copy()
        xm = x.copy()
        xp[i] += d
        xm[i] -= d
        J[:, i] = (np.asarray(f(xp)).ravel() - np.asarray(f(xm)).ravel()) / (xp[i] - xm[i])
    return J
