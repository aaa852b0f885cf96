"""C04: DFT with uncertainty = exact linear propagation."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, close, close_cov, enlarge, expect, law, unpack

RULE = "at least 4 samples and a non-zero uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis) against the explicit DFT matrix"


def D():
    from PyDynamic.uncertainty import propagate_DFT
    return propagate_DFT


def ux_spec(floats=True):
    alts = [gen.fd(form=st.just("vec"), u=gen.uspec(wide=True)),
            gen.fd(form=st.just("mat"), u=gen.cspec(wide=True)),
            gen.fd(form=st.just("imat"), u=gen.seeds())]
    if floats:
        alts.append(gen.fd(form=st.just("float"), v=gen.nice(0, 9)))
    return st.one_of(*alts)


def ux_args(spec, n):
    """(argument, covariance)"""
    f = spec["form"]
    if f == "float":
        return float(spec["v"]), np.eye(n) * spec["v"]
    if f == "vec":
        v = gen.uvec(spec["u"], n) ** 2
        return v, np.diag(v)
    if f == "imat":  # integer valued covariance
        r = np.random.RandomState(spec["u"])
        A = r.randint(-2, 3, (n, n))
        U = A.dot(A.T)
        return U, U.astype(float)
    U = gen.cov(spec["u"], n)
    return U, U.copy()


def wspec():
    return st.one_of(st.none(), st.none(), gen.fd(
        k=st.sampled_from(["hann", "rand", "ones", "int", "zeros_inside"]), s=gen.seeds()))


def window(spec, n):
    if spec is None:
        return None
    r = np.random.RandomState(spec["s"])
    k = spec["k"]
    if k == "hann":
        return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / max(1, n))
    if k == "rand":
        return r.randn(n)
    if k == "ones":
        return np.ones(n)
    if k == "int":
        return r.randint(0, 3, n)
    return np.where(r.rand(n) < 0.3, 0.0, r.rand(n))


def case(small=12, mid=40):
    return gen.fd(n=gen.sizes(1, small, mid), x=gen.vspec(wide=True), ux=ux_spec(),
                  win=wspec(), pad=st.one_of(st.none(), st.integers(0, 9)),
                  mask=st.one_of(st.none(), st.none(), gen.seeds()),
                  C=st.booleans(), xint=st.integers(0, 4))


def nt(c):
    u = c["ux"]
    return c["n"] >= 4 and u.get("v") != 0 and not (
        isinstance(u.get("u"), dict) and u["u"]["k"] == "zero")


def cls(c):
    return [f"Ux={c['ux']['form']}", f"window={c['win'] is not None}",
            f"pad={'none' if not c['pad'] else 'yes'}", f"mask={c['mask'] is not None}",
            f"odd={c['n'] % 2}", f"returnC={c['C']}"]


def build(c):
    n = c["n"]
    x = gen.vec(c["x"], n)
    if c["xint"] == 0 and c["x"]["k"] in ("int", "const"):
        x = (x / c["x"]["a"]).round().astype(int)
    arg, U = ux_args(c["ux"], n)
    w = window(c["win"], n)
    N = n + (c["pad"] or 0)
    J = ref.dft_matrix(n, N)
    if w is not None:
        J = J * w
    M = N // 2 + 1
    sel = None
    if c["mask"] is not None:
        sel = np.random.RandomState(c["mask"]).rand(M) < 0.5
        if not sel.any():
            sel[c["mask"] % M] = True
        J = J[np.r_[sel, sel]]
    return x, arg, U, w, N, J, sel


@law("C04", case(), quick=1500, nontrivial=nt, classify=cls)
def linear_propagation(c):
    """values, covariance and sensitivities equal those of the explicit DFT matrix"""
    x, arg, U, w, N, J, sel = build(c)
    n = c["n"]
    kw = {}
    if w is not None:
        kw["window"] = w
    if c["pad"] is not None:
        kw["N"] = N
    if sel is not None:
        kw["mask"] = sel
    if c["C"]:
        kw["returnC"] = True
    out = unpack(D().GUM_DFT(x, arg, **kw), 3 if c["C"] else 2)
    Fv = J.dot(x)
    amp = np.max(np.abs(x)) * n * (1 if w is None else max(1.0, np.max(np.abs(w))))
    close(out[0], Fv, "DFT values", rtol=1e-11, scale=amp)
    wmax = 1.0 if w is None else float(np.max(np.abs(w)))
    bound = np.full(J.shape, wmax)
    got = arr(out[1], what="DFT covariance")
    if got.ndim == 1:
        # noise power without window: the variances only
        expect(c["ux"]["form"] == "float" and w is None,
               f"covariance collapsed to shape {got.shape}")
        want = np.diag(J.dot(U).dot(J.T))
        close(got, want, "variances for noise power", rtol=1e-10, scale=np.trace(U))
    else:
        close_cov(got, J, U, "DFT covariance", rtol=1e-11, bound=bound)
    if c["C"]:
        S = out[2]
        expect(isinstance(S, dict) and set(S) >= {"CxCos", "CxSin"}, "sensitivity dictionary")
        h = len(J) // 2
        J0 = ref.dft_matrix(n, N)
        if sel is not None:
            J0 = J0[np.r_[sel, sel]]
        close(S["CxCos"], J0[:h], "cosine sensitivities", rtol=1e-10, scale=1)
        close(S["CxSin"], J0[h:], "sine sensitivities", rtol=1e-10, scale=1)


@law("C04", gen.fd(n=gen.sizes(1, 12, 40), x=gen.vspec(), ux=ux_spec(False), y=gen.vspec()),
     quick=300, nontrivial=lambda c: c["n"] >= 4)
def reused_sensitivities(c):
    """sensitivities returned by one call and handed to another give the same result"""
    n = c["n"]
    x = gen.vec(c["x"], n)
    y = gen.vec(c["y"], n)
    arg, U = ux_args(c["ux"], n)
    F0, U0, S = unpack(D().GUM_DFT(x, arg, returnC=True), 3)
    F1, U1 = unpack(D().GUM_DFT(y, arg, CxCos=S["CxCos"], CxSin=S["CxSin"]), 2)
    F2, U2 = unpack(D().GUM_DFT(y, arg), 2)
    close(F1, arr(F2), "values with given sensitivities", rtol=1e-12, scale=1e-300)
    close(U1, arr(U2), "covariance with given sensitivities", rtol=1e-11, scale=1e-300)


@law("C04", gen.fd(n=gen.sizes(1, 14, 60), x=gen.vspec(), v=gen.nice(0.01, 9),
                   pad=st.one_of(st.none(), st.integers(0, 7)), win=wspec()),
     quick=400, nontrivial=lambda c: c["n"] >= 4)
def noise_power_forms(c):
    """noise power, constant vector of variances and multiple of the identity agree"""
    n = c["n"]
    x = gen.vec(c["x"], n)
    v = float(c["v"])
    kw = {}
    w = window(c["win"], n)
    if w is not None:
        kw["window"] = w
    if c["pad"] is not None:
        kw["N"] = n + c["pad"]
    outs = [unpack(D().GUM_DFT(x, a, **kw), 2) for a in (v, np.full(n, v), np.eye(n) * v)]
    ref_ = arr(outs[2][1], what="covariance of the matrix form")
    close(outs[1][1], ref_, "vector form", rtol=1e-11, scale=v * n)
    f = arr(outs[0][1], what="covariance of the float form")
    if f.ndim == 1:
        close(f, np.diag(ref_), "float form (variances)", rtol=1e-11, scale=v * n)
    else:
        close(f, ref_, "float form", rtol=1e-11, scale=v * n)
    for o in outs:
        close(o[0], arr(outs[0][0]), "values", rtol=1e-12, scale=1e-300)


@law("C04", gen.fd(n=gen.sizes(2, 14, 60), x=gen.vspec(), ux=ux_spec(), seed=gen.seeds(),
                   pad=st.integers(0, 6)),
     quick=400, nontrivial=lambda c: c["n"] >= 4)
def mask_selects(c):
    """the masked result is the selection of the unmasked one"""
    n = c["n"]
    x = gen.vec(c["x"], n)
    arg, U = ux_args(c["ux"], n)
    M = (n + c["pad"]) // 2 + 1
    sel = np.random.RandomState(c["seed"]).rand(M) < 0.5
    sel[c["seed"] % M] = True
    F0, U0 = unpack(D().GUM_DFT(x, arg, N=n + c["pad"]), 2)
    F1, U1 = unpack(D().GUM_DFT(x, arg, N=n + c["pad"], mask=sel), 2)
    k = np.r_[sel, sel]
    F0, U0 = arr(F0, (2 * M,)), arr(U0)
    close(F1, F0[k], "masked values", rtol=1e-12, scale=np.max(np.abs(F0)))
    want = U0[k] if U0.ndim == 1 else U0[np.ix_(k, k)]
    close(U1, want, "masked covariance", rtol=1e-10, scale=np.max(np.abs(U0)))


@law("C04", gen.fd(N=st.integers(1, 200), dt=st.sampled_from([1.0, 0.5, 2.0, 1e-3, 7.0])),
     quick=150, nontrivial=lambda c: c["N"] >= 4)
def frequencies(c):
    """the frequency axis has one entry per returned line: k / (N dt)"""
    N, dt = c["N"], c["dt"]
    f = D().GUM_DFTfreq(N, dt)
    close(f, np.arange(N // 2 + 1) / (N * dt), "frequencies", rtol=1e-13)
    if dt == 1.0:
        close(D().GUM_DFTfreq(N), np.arange(N // 2 + 1) / N, "default spacing", rtol=1e-13)


enlarge(linear_propagation, 32, n=gen.large(40, 700))
enlarge(mask_selects, 16, n=gen.large(60, 500))
