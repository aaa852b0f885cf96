"""C01: FIR filtering = values and exact second-order GUM covariance."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, close, expect, law, std_close, unpack

RULE = "at least 3 samples, at least 2 taps and at least one non-zero uncertainty; distinct by generated case"


def F(*a, **k):
    from PyDynamic.uncertainty import FIRuncFilter
    return FIRuncFilter(*a, **k)


def noise_spec():
    return st.one_of(
        gen.fd(form=st.just("float"), a=st.one_of(gen.amps(), st.just(0.0))),
        gen.fd(form=st.just("diag"), u=gen.uspec(wide=True)),
        gen.fd(form=st.just("corr"), u=gen.acspec(), m=st.integers(1, 30)),
        gen.fd(form=st.just("full"), u=gen.cspec(wide=True)),
    )


def theta_unc_spec():
    return st.one_of(
        st.none(),
        gen.fd(form=st.just("vec"), u=gen.uspec(wide=True)),
        gen.fd(form=st.just("mat"), u=gen.cspec(wide=True)),
    )


def noise_args(spec, n):
    """(sigma_noise argument, kind argument, covariance matrix)"""
    f = spec["form"]
    if f == "float":
        s = 0.37 * spec["a"]
        return s, "corr", np.eye(n) * s ** 2
    if f == "diag":
        u = gen.uvec(spec["u"], n)
        return u, "diag", np.diag(u ** 2)
    if f == "corr":
        c = gen.autocov(spec["u"], n, spec["m"])
        r = np.zeros(n)
        k = min(n, len(c))
        r[:k] = c[:k]
        i = np.arange(n)
        return c, "corr", r[np.abs(i[:, None] - i[None, :])]
    U = gen.cov(spec["u"], n)
    return U, "corr", U.copy()


def theta_args(spec, m):
    if spec is None:
        return None, None
    if spec["form"] == "vec":
        u = gen.uvec(spec["u"], m)
        return u, np.diag(u ** 2)
    U = gen.cov(spec["u"], m)
    return U, U.copy()


def scale_of(x, theta, Ux, Ut, gain=1.0):
    m = len(theta)
    sx = (np.sum(np.abs(theta)) * gain) ** 2 * np.max(np.abs(Ux))
    if Ut is not None:
        sx += (m * np.max(np.abs(x)) * gain) ** 2 * np.max(np.abs(Ut))
        sx += m ** 2 * gain ** 2 * np.max(np.abs(Ux)) * np.max(np.abs(Ut))
    return sx


def case_strategy(n_small, n_mid, m_small, m_mid):
    return gen.fd(
        n=gen.sizes(1, n_small, n_mid), m=gen.sizes(1, m_small, m_mid),
        x=gen.vspec(wide=True), th=gen.vspec(wide=True), ux=noise_spec(),
        ut=theta_unc_spec(), full=st.booleans(),
        shift=st.one_of(st.just(0), st.just(0), st.integers(-7, 7)),
        asint=st.integers(0, 5),
        low=st.one_of(st.none(), st.none(), gen.fd(m=st.integers(1, 6), v=gen.vspec())))


def is_zero(spec):
    """an uncertainty description that is zero by construction"""
    return spec is None or spec.get("a") == 0.0 or spec.get("u", {}).get("k") == "zero"


def nontrivial(c):
    return c["n"] >= 3 and c["m"] >= 2 and not (is_zero(c["ux"]) and is_zero(c["ut"]))


def classify(c):
    return [f"noise={c['ux']['form']}",
            f"theta={'none' if c['ut'] is None else c['ut']['form']}",
            f"full={c['full']}", f"blow={c['low'] is not None}",
            f"shift={'no' if c['shift'] == 0 else 'yes'}",
            f"longer_filter={c['m'] > c['n']}"]


def reference(c):
    n, m = c["n"], c["m"]
    x = gen.vec(c["x"], n)
    if c["asint"] == 0 and c["x"]["k"] in ("int", "const", "alt", "impulse"):
        x = (x / c["x"]["a"]).round().astype(int)
    theta = gen.vec(c["th"], m)
    sn, kind, Ux = noise_args(c["ux"], n)
    ut, Ut = theta_args(c["ut"], m)
    blow = None
    gain = 1.0
    xr, Uxr = x.astype(float), Ux
    if c["low"] is not None:
        blow = gen.vec(c["low"]["v"], c["low"]["m"])
        gain = max(1e-300, np.sum(np.abs(blow)))
        xr, Uxr = ref.fir_ref(x.astype(float), blow, Ux, None)
    yr, Uyr = ref.fir_ref(xr, theta, Uxr, Ut)
    s = c["shift"]
    if s:
        yr = np.roll(yr, -s)
        Uyr = np.roll(np.roll(Uyr, -s, axis=0), -s, axis=1)
    return x, theta, sn, kind, Ux, ut, Ut, blow, gain, yr, Uyr


@law("C01", case_strategy(12, 40, 6, 20), quick=1600, nontrivial=nontrivial,
     classify=classify)
def against_reference(c):
    """values, covariance and standard uncertainties equal the explicit sums"""
    x, theta, sn, kind, Ux, ut, Ut, blow, gain, yr, Uyr = reference(c)
    kw = {}
    if c["ut"] is not None:
        kw["Utheta"] = ut
    if c["shift"]:
        kw["shift"] = c["shift"]
    if blow is not None:
        kw["blow"] = blow
    if c["ux"]["form"] in ("diag", "corr"):
        kw["kind"] = kind
    if c["full"]:
        kw["return_full_covariance"] = True
    out = F(x, sn, theta, **kw)
    y, U = unpack(out, 2)
    vs = np.sum(np.abs(theta)) * gain * max(1e-300, np.max(np.abs(x)))
    close(y, yr, "filtered values", rtol=1e-10, scale=vs)
    sc = scale_of(x, theta, Ux, Ut, gain)
    if c["full"]:
        close(U, Uyr, "output covariance", rtol=1e-10, scale=sc)
    else:
        # the square root is taken of the modulus, rounding may leave tiny negatives
        std_close(U, np.abs(np.diag(Uyr)), "standard uncertainties", rtol=1e-10, vscale=sc)


@law("C01", case_strategy(80, 260, 12, 60), quick=64, thorough=1500, nontrivial=nontrivial,
     classify=classify)
def against_reference_long(c):
    """the same for long signals and filters"""
    against_reference(c)


@law("C01", gen.fd(c=case_strategy(80, 260, 12, 60), n=gen.large(250, 1300), m=gen.large(60, 300), long=st.booleans()),
     quick=24, thorough=600, nontrivial=lambda k: nontrivial(k["c"]), classify=lambda k: ["long signal" if k["long"] else "long filter"])
def against_reference_large(k):
    """signals of more than a thousand samples, filters of hundreds of coefficients"""
    n, m = (k["n"], 1 + k["m"] % 9) if k["long"] else (20 + k["n"] % 60, k["m"])
    against_reference(dict(k["c"], n=n, m=m))


@law("C01", gen.fd(n=st.integers(2, 14), m=st.integers(1, 5), x=gen.vspec(),
                   th=gen.vspec(), ux=noise_spec(), ut=theta_unc_spec(),
                   seed=gen.seeds()),
     quick=96, thorough=600, nontrivial=lambda c: True)
def sampled_covariance(c):
    """the reported covariance is the covariance of filter outputs of sampled inputs
    (exact second-order moments of independent normal signal and coefficients)"""
    n, m = c["n"], c["m"]
    x = gen.vec(c["x"], n)
    theta = gen.vec(c["th"], m)
    sn, kind, Ux = noise_args(c["ux"], n)
    ut, Ut = theta_args(c["ut"], m)
    y, U = unpack(F(x, sn, theta, Utheta=ut, kind=kind, return_full_covariance=True), 2)
    U = arr(U, (n, n), "output covariance")
    r = np.random.RandomState(c["seed"])
    # extended input: past samples continue the stationary process
    E = ref.extend_stationary(Ux, m - 1)
    w, V = np.linalg.eigh((E + E.T) / 2)
    if w.min() < -1e-9 * max(1e-300, np.abs(w).max()):
        return  # no such process exists (non-stationary description)
    A = V * np.sqrt(np.clip(w, 0, None))
    K = 4000
    xe = np.concatenate([np.full(m - 1, x[0]), x]) + r.randn(K, len(E)).dot(A.T)
    if Ut is not None:
        wt, Vt = np.linalg.eigh(Ut)
        th = theta + r.randn(K, m).dot((Vt * np.sqrt(np.clip(wt, 0, None))).T)
    else:
        th = np.tile(theta, (K, 1))
    Y = np.zeros((K, n))
    for k in range(m):
        Y += th[:, k:k + 1] * xe[:, m - 1 - k: m - 1 - k + n]
    C = np.cov(Y, rowvar=False).reshape(n, n)
    sd = np.sqrt(np.abs(np.diag(U)))
    top = (m * np.max(np.abs(theta)) * max(1e-300, np.max(np.abs(x)))) ** 2
    tol = 12 * np.outer(sd, sd) / np.sqrt(K) + 1e-9 * np.max(np.abs(C)) + 1e-12 * top
    expect(np.all(np.abs(C - U) <= tol * 1.5),
           "reported covariance differs from the sampled one beyond 18 sigma")
