"""C13: IIR filtering with uncertain coefficients and noise."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, enlarge, expect, law, std_close, unpack

RULE = "recursive filter (order at least 1, a non-zero recursive coefficient), at least 5 samples and a non-zero uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis) against an explicit recursion with analytic coefficient derivatives, plus metamorphic relations"


def F():
    from PyDynamic.uncertainty import propagate_filter

    return propagate_filter


def recursion(b, a, x):
    """y[n] = sum b_k x[n-k] - sum a_k y[n-k], zero initial state (plain loop)"""
    y = np.zeros(len(x))
    for n in range(len(x)):
        s = 0.0
        for k in range(min(len(b), n + 1)):
            s += b[k] * x[n - k]
        for k in range(1, min(len(a), n + 1)):
            s -= a[k] * y[n - k]
        y[n] = s
    return y


def delayed(v, k):
    return np.concatenate([np.zeros(min(k, len(v))), v[: max(0, len(v) - k)]])


def case():
    return gen.fd(p=st.integers(1, 5), f=gen.seeds(), rmax=st.sampled_from([0.5, 0.9, 0.97]),
                  nb=st.integers(0, 5), bz=st.integers(0, 5),
                  n=gen.sizes(1, 12, 40, 90), x=gen.vspec(wide=True),
                  noise=st.one_of(gen.fd(form=st.just("float"),
                                         v=st.sampled_from([0.0, 0.1, 1.0, 1e-3, 30.0, 2])),
                                  gen.fd(form=st.just("vec"), u=gen.uspec(wide=True))),
                  U=gen.cspec(wide=True), intx=st.integers(0, 5))


def build(c):
    p = c["p"]
    a = gen.stable_poly(c["f"], p, c["rmax"])
    r = np.random.RandomState(c["f"] + 5)
    nb = max(1, p + 1 - c["nb"] // 2)
    b = r.randn(nb)
    if c["bz"] == 0:
        b[0] = 0.0
    elif c["bz"] == 1:
        b = np.where(r.rand(nb) < 0.5, 0.0, b)
        b[-1] = 0.7
    elif c["bz"] == 2:
        b = r.randint(1, 4, nb)
    elif c["bz"] == 3 and p > 1:  # a system given with unnecessary high denominator order
        a[-1] = 0.0
    if c["intx"] == 0:
        x = np.random.RandomState(c["x"]["s"]).randint(-9, 10, c["n"])
    else:
        x = gen.vec(c["x"], c["n"])
    U = gen.cov(c["U"], 2 * p + 1)
    nz = c["noise"]
    noise = nz["v"] if nz["form"] == "float" else gen.uvec(nz["u"], c["n"])
    return b, a, x, noise, U


def model(b, a, x, noise, U):
    """values, coefficient variance, noise variance and magnitude scales"""
    p = len(a) - 1
    y = recursion(b, a, x)
    n = len(x)
    xf = recursion([1.0], a, x)
    yf = recursion([1.0], a, y)
    J = np.array([-delayed(yf, k) for k in range(1, p + 1)]
                 + [delayed(xf, k) for k in range(p + 1)]).T
    vc = np.einsum("ij,jk,ik->i", J, U, J)
    imp = np.zeros(n)
    imp[0] = 1.0
    h = recursion(b, a, imp)
    s2 = np.zeros(n) + np.asarray(noise, float) ** 2
    vn = np.array([np.sum(h[: t + 1] ** 2 * s2[t::-1]) for t in range(n)])
    sc = np.max((np.abs(J).dot(np.sqrt(np.diag(U)))) ** 2) if n else 0.0
    # the states pass through much larger values than a (cancelling) output
    amp = np.max(np.abs(xf)) * np.sum(np.abs(b)) + np.max(np.abs(y))
    g = recursion([1.0], a, imp)
    vs = sc + np.sum(np.abs(b)) ** 2 * np.sum(np.abs(g)) ** 2 * np.max(s2)
    return y, vc, vn, amp, vs


def nt(c):
    return c["n"] >= 5


def cls(c):
    return [f"order={c['p']}", f"noise={c['noise']['form']}", f"U={c['U']['k']}"]


@law("C13", case(), quick=1600, nontrivial=nt, classify=cls)
def matches_reference_recursion(c):
    """output and sqrt(noise variance + J Uab J^T) at every time"""
    b, a, x, noise, U = build(c)
    y, vc, vn, amp, vs = model(b, a, x, noise, U)
    yg, ug = unpack(F().IIRuncFilter(x, noise, b, a, U), 2)
    close(yg, y, "filter output", rtol=1e-9, scale=amp)
    std_close(ug, vc + vn, "uncertainty", rtol=1e-8, vscale=vs)


@law("C13", case(), quick=500, nontrivial=nt)
def contributions_are_separate_and_additive(c):
    """certain filter: noise only; no noise: coefficients only; variances add; any
    description of the noise"""
    b, a, x, noise, U = build(c)
    y, vc, vn, amp, vs = model(b, a, x, noise, U)
    f = F().IIRuncFilter
    y1, u1 = unpack(f(x, noise, b, a, np.zeros_like(U)), 2)
    y2, u2 = unpack(f(x, 0.0, b, a, U), 2)
    y3, u3 = unpack(f(x, noise, b, a, U), 2)
    std_close(u1, vn, "uncertainty of a certain filter", rtol=1e-8, vscale=vs)
    std_close(u2, vc, "uncertainty without noise", rtol=1e-8, vscale=vs)
    n = len(x)
    close(arr(u3, (n,)) ** 2, arr(u1, (n,)) ** 2 + arr(u2, (n,)) ** 2, "sum of the variances",
          rtol=1e-8, scale=vs)
    close(y1, arr(y3), "values", rtol=0)
    close(y2, arr(y3), "values", rtol=0)
    y0, u0 = unpack(f(x, 0.0, b, a, np.zeros_like(U)), 2)
    expect(np.all(arr(u0) == 0), "no input uncertainty, but an output uncertainty")
    if np.ndim(noise) == 0:
        y4, u4 = unpack(f(x, np.full(n, float(noise)), b, a, U), 2)
        close(u4, arr(u3), "constant noise as vector", rtol=1e-12)
    # the FIR expansion of the impulse response gives the same result
    imp = np.zeros(n)
    imp[0] = 1
    h = recursion(b, a, imp)
    close(y3, recursion(h, [1.0], x), "convolution with impulse response", rtol=1e-9, scale=amp)


@law("C13", case(), quick=500, nontrivial=nt)
def causal_scaling_and_padding(c):
    """only the past matters; results scale with the signal; a short numerator is the
    zero-padded one; a delayed signal gives the delayed result"""
    b, a, x, noise, U = build(c)
    n = len(x)
    f = F().IIRuncFilter
    yv, uv, vnv, amp, vs = model(b, a, x, noise, U)
    y, u = unpack(f(x, noise, b, a, U), 2)
    r = np.random.RandomState(c["f"])
    k = r.randint(1, n + 1)
    nk = noise if np.ndim(noise) == 0 else noise[:k]
    yk, uk = unpack(f(x[:k], nk, b, a, U), 2)
    close(yk, arr(y)[:k], "values of the first samples", rtol=1e-12, scale=amp)
    close(uk, arr(u)[:k], "uncertainty of the first samples", rtol=1e-10)
    s = float(r.choice([2.0, -4.0, 0.5]))
    ys, us = unpack(f(x * s, noise * abs(s), b, a, U), 2)
    close(ys, s * arr(y), "scaled values", rtol=1e-12, scale=abs(s) * amp)
    close(us, abs(s) * arr(u), "scaled uncertainty", rtol=1e-10)
    if len(b) < len(a):
        yp, up = unpack(f(x, noise, np.r_[b, np.zeros(len(a) - len(b))], a, U), 2)
        close(yp, arr(y), "padded numerator", rtol=1e-12, scale=amp)
        close(up, arr(u), "padded numerator, uncertainty", rtol=1e-10)
    d = r.randint(1, 4)
    nd = noise if np.ndim(noise) == 0 else np.r_[np.zeros(d), noise]
    yd, ud = unpack(f(np.r_[np.zeros(d), x], nd, b, a, U), 2)
    close(arr(yd)[d:], arr(y), "delayed values", rtol=1e-12, scale=amp)
    if np.ndim(noise):
        close(arr(ud)[d:], arr(u), "delayed uncertainty", rtol=1e-9,
              scale=np.sqrt(vs) * 1e-3)


enlarge(matches_reference_recursion, 24, n=gen.large(90, 900))
