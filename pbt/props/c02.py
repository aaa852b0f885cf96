"""C02: metamorphic relations of FIR filtering."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, enlarge, expect, law, std_close, unpack
from .c01 import F, noise_args, noise_spec, scale_of, theta_args, theta_unc_spec, is_zero

RULE = "at least 3 samples and 2 taps (for the metamorphic relations: non-zero uncertainty); distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): metamorphic and differential relations"


def base(**kw):
    d = dict(n=gen.sizes(2, 12, 60), m=gen.sizes(1, 6, 25), x=gen.vspec(), th=gen.vspec(),
             ux=noise_spec(), ut=theta_unc_spec())
    d.update(kw)
    return gen.fd(**d)


def nt(c):
    return c["n"] >= 3 and c["m"] >= 2 and not (is_zero(c.get("ux")) and is_zero(c.get("ut")))


def nt_any(c):
    return c["n"] >= 3 and c["m"] >= 2


def setup(c):
    n, m = c["n"], c["m"]
    x = gen.vec(c["x"], n)
    th = gen.vec(c["th"], m)
    sn, kind, Ux = noise_args(c["ux"], n)
    ut, Ut = theta_args(c["ut"], m)
    return x, th, sn, kind, Ux, ut, Ut


def call(*a, **k):
    y, U = unpack(F(*a, **k), 2)
    return arr(y, what="values"), arr(U, what="uncertainty")


@law("C02", base(s=gen.nice(0.01, 5.0), pad=st.integers(0, 5)), quick=500, nontrivial=nt_any)
def equivalent_noise_forms(c):
    """float = constant point-wise vector = one-element autocovariance = diagonal matrix"""
    x, th, _, _, _, ut, Ut = setup(c)
    n, s = c["n"], c["s"]
    sc = scale_of(x, th, np.eye(n) * s ** 2, Ut)
    vs = np.sum(np.abs(th)) * np.max(np.abs(x))
    y0, u0 = call(x, float(s), th, Utheta=ut)
    expect(u0.shape == (n,), f"standard uncertainties have shape {u0.shape}, expected {(n,)}")
    ac = np.zeros(1 + c["pad"])
    ac[0] = s ** 2
    forms = {
        "constant point-wise vector": (np.full(n, s), "diag"),
        "one-element autocovariance": (ac, "corr"),
        "diagonal matrix": (np.eye(n) * s ** 2, "corr"),
    }
    yf, Uf = call(x, float(s), th, Utheta=ut, return_full_covariance=True)
    expect(Uf.shape == (n, n), f"covariance has shape {Uf.shape}")
    close(np.abs(np.diag(Uf)), u0 ** 2, "diagonal of the full covariance vs point-wise",
          rtol=1e-9, scale=sc)
    close(yf, y0, "values (full vs point-wise)", rtol=1e-10, scale=vs)
    for name, (sn, kind) in forms.items():
        y, u = call(x, sn, th, Utheta=ut, kind=kind)
        close(y, y0, f"values for {name}", rtol=1e-10, scale=vs)
        close(u ** 2, u0 ** 2, f"uncertainty (squared) for {name}", rtol=1e-9, scale=sc)
        y, U = call(x, sn, th, Utheta=ut, kind=kind, return_full_covariance=True)
        close(U, Uf, f"full covariance for {name}", rtol=1e-9, scale=sc)


@law("C02", base(w=gen.uspec()), quick=300, nontrivial=nt_any)
def equivalent_filter_forms(c):
    """vector of standard uncertainties of the taps = diagonal covariance;
    no uncertainty = zero matrix"""
    x, th, sn, kind, Ux, _, _ = setup(c)
    n, m = c["n"], c["m"]
    w = gen.uvec(c["w"], m)
    sc = scale_of(x, th, Ux, np.diag(w ** 2))
    for full in (False, True):
        y1, U1 = call(x, sn, th, Utheta=w, kind=kind, return_full_covariance=full)
        y2, U2 = call(x, sn, th, Utheta=np.diag(w ** 2), kind=kind,
                      return_full_covariance=full)
        y3, U3 = call(x, sn, th, kind=kind, return_full_covariance=full)
        y4, U4 = call(x, sn, th, Utheta=np.zeros((m, m)), kind=kind,
                      return_full_covariance=full)
        y5, U5 = call(x, sn, th, Utheta=np.zeros(m), kind=kind, return_full_covariance=full)
        for y in (y2, y3, y4, y5):
            close(y, y1, "values for another description of the filter uncertainty",
                  rtol=1e-10, scale=np.sum(np.abs(th)) * np.max(np.abs(x)))
        p = 1 if full else 2
        close(U2 ** p, U1 ** p, "matrix vs vector filter uncertainty", rtol=1e-9, scale=sc)
        close(U4 ** p, U3 ** p, "zero matrix vs no filter uncertainty", rtol=1e-9, scale=sc)
        close(U5 ** p, U3 ** p, "zero vector vs no filter uncertainty", rtol=1e-9, scale=sc)


@law("C02", base(shift=st.integers(-3, 3), low=st.one_of(st.none(), gen.vspec()),
                 lm=st.integers(1, 4)), quick=400, nontrivial=nt)
def pointwise_is_diagonal(c):
    """the point-wise output is the root of the diagonal of the full output"""
    x, th, sn, kind, Ux, ut, Ut = setup(c)
    kw = dict(Utheta=ut, kind=kind, shift=c["shift"])
    g = 1.0
    if c["low"] is not None:
        kw["blow"] = gen.vec(c["low"], c["lm"])
        g = max(np.sum(np.abs(kw["blow"])), 1e-300)
    y1, u1 = call(x, sn, th, **kw)
    y2, U2 = call(x, sn, th, return_full_covariance=True, **kw)
    close(y1, y2, "values", rtol=1e-10, scale=np.sum(np.abs(th)) * np.max(np.abs(x)) * g)
    std_close(u1, np.abs(np.diag(U2)), "point-wise vs diagonal of full", rtol=1e-9,
              vscale=scale_of(x, th, Ux, Ut, g))


@law("C02", base(k=st.integers(0, 59), d=gen.vspec(), full=st.booleans()), quick=400,
     nontrivial=nt)
def causal(c):
    """output up to time k does not depend on later input values or uncertainties"""
    x, th, sn, kind, Ux, ut, Ut = setup(c)
    n = c["n"]
    k = c["k"] % n
    x2 = x.copy()
    x2[k + 1:] += gen.vec(c["d"], n)[k + 1:]
    sn2 = sn
    if isinstance(sn, np.ndarray) and sn.ndim == 1 and kind == "diag":
        sn2 = sn.copy()
        sn2[k + 1:] = sn2[k + 1:] * 3 + 0.5
    kw = dict(Utheta=ut, kind=kind, return_full_covariance=c["full"])
    y1, U1 = call(x, sn, th, **kw)
    y2, U2 = call(x2, sn2, th, **kw)
    big = max(np.max(np.abs(x)), np.max(np.abs(x2)))
    sc = scale_of(np.array([big]), th, Ux * 10 + 1, Ut)
    close(y2[:k + 1], y1[:k + 1], "earlier values", rtol=1e-10,
          scale=np.sum(np.abs(th)) * big)
    if c["full"]:
        close(U2[:k + 1, :k + 1], U1[:k + 1, :k + 1], "earlier covariance", rtol=1e-9, scale=sc)
    else:
        close(U2[:k + 1] ** 2, U1[:k + 1] ** 2, "earlier uncertainty", rtol=1e-9, scale=sc)
    # truncating the signal is the same as forgetting the future
    if isinstance(sn, float):
        y3, U3 = call(x[:k + 1], sn, th, **kw)
        close(y3, y1[:k + 1], "values of the truncated signal", rtol=1e-10,
              scale=np.sum(np.abs(th)) * big)


@law("C02", base(cst=gen.nice(-50, 50)), quick=250, nontrivial=nt_any)
def constant_signal(c):
    """a constant signal is multiplied by the sum of the coefficients at every time"""
    _, th, sn, kind, Ux, ut, Ut = setup(c)
    x = np.full(c["n"], c["cst"])
    y, _ = call(x, sn, th, Utheta=ut, kind=kind)
    close(y, np.full(c["n"], c["cst"] * th.sum()), "filtered constant", rtol=1e-10,
          scale=np.sum(np.abs(th)) * abs(c["cst"]))


@law("C02", base(g=st.sampled_from([-3.0, 0.5, 2.0, 1e3, 1e-3, -1.0]), full=st.booleans()),
     quick=400, nontrivial=nt)
def scaling(c):
    """signal and uncertainty times g: result times g, uncertainty times |g|; the same
    for the filter and its uncertainty"""
    x, th, sn, kind, Ux, ut, Ut = setup(c)
    g = c["g"]
    kw = dict(kind=kind, return_full_covariance=c["full"])
    y1, U1 = call(x, sn, th, Utheta=ut, **kw)
    f = c["ux"]["form"]
    sn2 = sn * (abs(g) if f in ("float", "diag") else g ** 2)
    y2, U2 = call(x * g, sn2, th, Utheta=ut, **kw)
    p, q = (1, g ** 2) if c["full"] else (2, g ** 2)
    sc = scale_of(x, th, Ux, Ut) * g ** 2
    vs = np.sum(np.abs(th)) * np.max(np.abs(x)) * abs(g)
    close(y2, y1 * g, "values of the scaled signal", rtol=1e-10, scale=vs)
    close(U2 ** p, U1 ** p * q, "uncertainty of the scaled signal", rtol=1e-9, scale=sc)
    ut2 = None if ut is None else ut * (abs(g) if ut.ndim == 1 else g ** 2)
    y3, U3 = call(x, sn, th * g, Utheta=ut2, **kw)
    close(y3, y1 * g, "values of the scaled filter", rtol=1e-10, scale=vs)
    close(U3 ** p, U1 ** p * q, "uncertainty of the scaled filter", rtol=1e-9, scale=sc)


@law("C02", base(low=gen.vspec(), lm=st.integers(2, 6), full=st.booleans()), quick=300,
     nontrivial=nt)
def lowpass_is_two_steps(c):
    """the optional low-pass equals filtering with it first, then with the filter"""
    x, th, sn, kind, Ux, ut, Ut = setup(c)
    b = gen.vec(c["low"], c["lm"])
    y1, U1 = call(x, sn, th, Utheta=ut, kind=kind, blow=b, return_full_covariance=c["full"])
    yl, Ul = call(x, sn, b, kind=kind, return_full_covariance=True)
    y2, U2 = call(yl, Ul, th, Utheta=ut, return_full_covariance=c["full"])
    g = max(np.sum(np.abs(b)), 1e-300)
    p = 1 if c["full"] else 2
    close(y1, y2, "values", rtol=1e-10, scale=np.sum(np.abs(th)) * np.max(np.abs(x)) * g)
    close(U1 ** p, U2 ** p, "uncertainty", rtol=1e-9, scale=scale_of(x, th, Ux, Ut, g))


@law("C02", base(x2=gen.vspec()), quick=200, nontrivial=nt_any)
def values_linear(c):
    """values are additive in the signal and do not depend on uncertainties"""
    x, th, sn, kind, Ux, ut, Ut = setup(c)
    z = gen.vec(c["x2"], c["n"])
    a, _ = call(x, sn, th, Utheta=ut, kind=kind)
    b, _ = call(z, 0.5, th)
    s, _ = call(x + z, 0.0, th)
    close(s, a + b, "values of the summed signal", rtol=1e-10,
          scale=np.sum(np.abs(th)) * (np.max(np.abs(x)) + np.max(np.abs(z))))


enlarge(causal, 12, n=gen.large(60, 500), m=gen.large(25, 80))
enlarge(pointwise_is_diagonal, 12, n=gen.large(60, 250))
enlarge(equivalent_noise_forms, 12, n=gen.large(60, 250))
