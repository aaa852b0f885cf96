"""C20: least-squares IIR fits."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Discard, arr, close, enlarge, expect, law, symmetric_psd, unpack
from .c18 import F, freqs as ffreqs, response

RULE = "at least one denominator and two numerator coefficients in total three unknowns, more equations than unknowns; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): optimality of the equation error against an independent solver, recovery round trips, stability-or-warning and linear propagation bands"


def case():
    return gen.fd(Nb=st.sampled_from([2, 0, 1, 1, 3]), Na=st.sampled_from([2, 0, 1, 1, 2, 3, 3]), M=gen.sizes(6, 14, 30),
                  f=gen.seeds(), fk=st.sampled_from(["equi", "rand", "rand", "with0", "withnyq"]),
                  Fs=st.sampled_from([1.0, 2.0, 1000.0, 48000, 1e-3, 2.5e6]), h=gen.seeds(),
                  hk=st.sampled_from(["random", "fir", "system", "system", "iir", "iir", "real", "unstable"]),
                  tau=st.sampled_from([0, 0, 1, 3, 7]), inv=st.booleans(), N=st.just(0),
                  intf=st.integers(0, 5))


def nt(c):
    return c["Na"] >= 1 and c["Nb"] + c["Na"] >= 2


def cls(c):
    return ["inverse" if c["inv"] else "direct", f"response={c['hk']}",
            "delay" if c["tau"] else "no delay", f"Na={c['Na']}", stability(c)]


def poly(b, om):
    return sum(v * np.exp(-1j * om * k) for k, v in enumerate(b))


def data(c):
    f = ffreqs(c)
    om = 2 * np.pi * np.asarray(f, float) / c["Fs"]
    if c["hk"] == "iir":
        r = np.random.RandomState(c["h"])
        b = r.randn(3)
        a = gen.stable_poly(c["h"], 2, 0.8)
        H = poly(b, om) / poly(a, om)
        H = H + 0.05 * (r.randn(len(om)) + 1j * r.randn(len(om)))
        H[np.abs(H) < 1e-2] = 1e-2
    elif c["hk"] == "unstable":  # poles (zeros for the inverse fit) outside the unit circle
        r = np.random.RandomState(c["h"])
        p = r.uniform(1.02, 1.3) * np.exp(1j * r.uniform(0.3, 2.8))
        H = r.uniform(0.5, 2) / np.abs(poly([1.0, -2 * p.real, abs(p) ** 2], om * 0 + 0.5))
        H = H / poly([1.0, -2 * p.real, abs(p) ** 2], om)
        H = 1.0 / H if c["inv"] else H
    else:
        H = response(c, f).astype(complex)
    return f, om, H


def stability(c):
    f, om, H = data(c)
    A, t, _ = equation(c, H, om, c["tau"])
    th = np.linalg.lstsq(A, t, rcond=None)[0]
    r = np.abs(np.roots(np.r_[1.0, th[: c["Na"]]])) if c["Na"] else []
    return "first fit unstable" if len(r) and np.max(r) > 1 else "first fit stable"


def call(c, H, f, justFit=False):
    """b, a, tau (None if not returned), printed text"""
    out = io.StringIO()
    fn = F().invLSIIR if c["inv"] else F().LSIIR
    with contextlib.redirect_stdout(out):
        r = fn(H, c["Nb"], c["Na"], f, c["Fs"], c["tau"], justFit)
    r = tuple(r)
    expect(len(r) == 3 or (justFit and len(r) == 2), f"{len(r)} return values")
    b = arr(r[0], (c["Nb"] + 1,), "numerator")
    a = arr(r[1], (c["Na"] + 1,), "denominator")
    expect(a[0] == 1.0, f"leading denominator coefficient is {a[0]!r}")
    return b, a, (r[2] if len(r) == 3 else None), out.getvalue()


def equation(c, H, om, tau):
    """real system for (a1.., b0..): min || T (1 + sum a_k z^-k) - sum b_k z^-k ||"""
    T = np.exp(-1j * om * tau) * (1.0 / H if c["inv"] else H)
    cols = [T * np.exp(-1j * om * k) for k in range(1, c["Na"] + 1)]
    cols += [-np.exp(-1j * om * k) for k in range(c["Nb"] + 1)]
    A = np.array(cols).T
    return np.vstack([A.real, A.imag]), -np.r_[T.real, T.imag], T


def check_optimal(c, b, a, H, om, tau, what):
    A, t, T = equation(c, H, om, tau)
    ref = np.linalg.lstsq(A, t, rcond=None)[0]
    th = np.r_[a[1:], b]
    c0 = np.sum((A.dot(ref) - t) ** 2)
    c1 = np.sum((A.dot(th) - t) ** 2)
    s = np.linalg.svd(A, compute_uv=False)
    # the normal equations lose twice the digits
    slack = (1e-15 * (s[0] / max(s[-1], 1e-8 * s[0])) ** 2) ** 2 * np.sum(t ** 2)
    expect(c1 <= c0 * (1 + 1e-6) + 1e-12 * np.sum(t ** 2) + min(slack, 1e-6 * np.sum(t ** 2)),
           f"{what}: squared equation error {c1!r}, minimum is {c0!r} (delay {tau})")


@law("C20", case(), quick=700, nontrivial=nt, classify=cls)
def just_fit_is_optimal(c):
    """without stabilisation: minimal equation error for the given delay"""
    f, om, H = data(c)
    b, a, tau, _ = call(c, H, f, justFit=True)
    if tau is not None:
        expect(tau == c["tau"], f"delay {tau!r} returned, {c['tau']} was applied")
    check_optimal(c, b, a, H, om, c["tau"], "fit")


@law("C20", case(), quick=700, nontrivial=nt, classify=cls)
def stabilised_fit_is_optimal_for_its_delay(c):
    """minimal equation error for the returned delay; the delay is kept if no stabilisation
    was necessary; a stable filter or a warning"""
    f, om, H = data(c)
    b0, a0, _, _ = call(c, H, f, justFit=True)
    b, a, tau, text = call(c, H, f)
    expect(float(tau) == int(tau), f"delay {tau!r} is not a number of samples")
    check_optimal(c, b, a, H, om, int(tau), "stabilised fit")
    r0 = np.abs(np.roots(a0)) if c["Na"] else np.zeros(1)
    if not len(r0) or np.max(r0) < 1 - 1e-6:
        expect(int(tau) == c["tau"], f"delay changed from {c['tau']} to {tau} without need")
        close(b, b0, "numerator", rtol=1e-12)
        close(a, a0, "denominator", rtol=1e-12)
    elif np.max(r0) > 1 + 1e-4:
        # reflecting poles into the unit circle adds a positive group delay everywhere
        expect(int(tau) > c["tau"], f"poles of modulus {np.max(r0)} and the delay {tau} was not increased")
    r = np.abs(np.roots(a)) if c["Na"] else np.zeros(1)
    if len(r) and np.max(r) > 1 + 1e-9:
        expect("NOT" in text or "aution" in text, "unstable filter without a warning")
    elif not len(r) or np.max(r) < 1 - 1e-9:
        expect("did NOT result in a stable" not in text, "warning about a stable filter")


@law("C20", case(), quick=700, nontrivial=nt, classify=cls)
def filters_are_recovered(c):
    """the response of a stable filter of the same orders (advanced by the delay) is
    recovered, as is the reciprocal by the inverse fit"""
    f, om, _ = data(c)
    r = np.random.RandomState(c["h"])
    b0 = r.randn(c["Nb"] + 1)
    b0[0] = np.sign(b0[0] + 0.1) * (np.abs(b0[0]) + 0.5)
    a0 = gen.stable_poly(c["h"], c["Na"], 0.85)
    G = poly(b0, om) / poly(a0, om)
    if np.min(np.abs(G)) < 1e-3:
        raise Discard
    H = G * np.exp(1j * om * c["tau"])
    if c["inv"]:
        H = 1.0 / H
    # target of the direct fit: H exp(-j om tau); of the inverse: exp(-j om tau) / H
    if c["inv"]:
        H = 1.0 / (G * np.exp(1j * om * c["tau"]))
    A, t, _ = equation(c, H, om, c["tau"])
    s = np.linalg.svd(A, compute_uv=False)
    if s[-1] < 1e-3 * s[0]:
        raise Discard
    for jf in (True, False):
        b, a, tau, _ = call(c, H, f, justFit=jf)
        close(b, b0, "recovered numerator", rtol=1e-6)
        close(a, a0, "recovered denominator", rtol=1e-6)
        if tau is not None:
            expect(int(tau) == c["tau"], f"delay {tau} of a stable filter")


@law("C20", gen.fd(c=case(), U=gen.cspec(("ident", "diag", "full", "rank1", "diagz")),
                   rel=st.sampled_from([0.0, 1e-3, 1e-4]), seed=gen.seeds()),
     quick=32, thorough=500, nontrivial=lambda k: nt(k["c"]),
     classify=lambda k: [f"U={k['U']['k']}", f"u={k['rel']}"])
def uncertain_form_propagates(k):
    """coefficients of the plain fit for small uncertainty, covariance of (a1.., b0..) in
    the band of the linear propagation; vanishes with the uncertainty; seeds reproduce"""
    c = dict(k["c"], inv=True, M=min(k["c"]["M"], 12))
    f, om, H = data(c)
    M, Na, q = len(f), c["Na"], c["Na"] + c["Nb"] + 1
    A, t, T = equation(c, H, om, c["tau"])
    s = np.linalg.svd(A, compute_uv=False)
    th = np.linalg.lstsq(A, t, rcond=None)[0]
    roots = np.abs(np.roots(np.r_[1.0, th[:Na]])) if Na else np.zeros(1)
    if s[-1] < 1e-2 * s[0] or (len(roots) and np.max(roots) > 0.95):
        raise Discard
    U = gen.cov(dict(k["U"], a=1.0), 2 * M)
    U = U / max(np.max(np.diag(U)), 1e-300) * (k["rel"] * np.min(np.abs(H))) ** 2

    def go():
        np.random.seed(k["seed"])
        with contextlib.redirect_stdout(io.StringIO()):
            return unpack(F().invLSIIR_unc(H, U, c["Nb"], Na, f, c["Fs"], c["tau"]), 4)

    b, a, tau, Uab = go()
    b, a = arr(b, (c["Nb"] + 1,), "numerator"), arr(a, (Na + 1,), "denominator")
    expect(a[0] == 1.0, "leading denominator coefficient")
    if q == 1:
        Uab = np.reshape(arr(Uab), (1, 1))
    Uab = symmetric_psd(Uab, "covariance of (a, b)", n=q)
    got = np.r_[a[1:], b]
    m = np.max(np.abs(th)) + 1.0
    if k["rel"] == 0.0:
        expect(float(tau) == c["tau"], "delay")
        close(got, th, "coefficients", rtol=1e-7, scale=m)
        expect(np.max(np.abs(Uab)) <= 1e-16 * m ** 2, "covariance is not zero")
        return

    def fit(ri):
        A, t, _ = equation(c, ri[:M] + 1j * ri[M:], om, c["tau"])
        Q, R = np.linalg.qr(A)
        return np.linalg.solve(R, Q.T.dot(t))

    ri = np.r_[H.real, H.imag]
    J = np.zeros((q, 2 * M))
    for i in range(2 * M):
        d = np.zeros(2 * M)
        d[i] = 1e-6 * np.min(np.abs(H))
        J[:, i] = (fit(ri + d) - fit(ri - d)) / (2 * d[i])
    C = J.dot(U).dot(J.T)
    v = np.diag(C)
    # second-order effects: change of the Jacobian within the uncertainty, per direction
    L = np.linalg.cholesky(U + 1e-14 * np.max(np.diag(U)) * np.eye(2 * M))
    h2 = np.zeros(q)
    for i in range(2 * M):
        h2 += np.abs(fit(ri + L[:, i]) + fit(ri - L[:, i]) - 2 * fit(ri))
    lim = 8 * np.sqrt(v / 1000) + 3 * h2
    expect(np.all(np.abs(got - th) <= lim + 1e-8 * m), "coefficients differ from the plain fit")
    s1 = np.sqrt(v)
    nonlin = np.outer(s1, 3 * h2) + np.outer(3 * h2, s1) + np.outer(3 * h2, 3 * h2)
    se = np.sqrt((np.outer(v, v) + C ** 2) / 1000)
    expect(np.all(np.abs(Uab - C) <= 8 * se + nonlin + 1e-16 * m ** 2 + 1e-6 * np.max(v)),
           "covariance differs from the linear propagation")
    b2, a2, tau2, U2 = go()
    expect(np.array_equal(b, arr(b2)) and np.array_equal(Uab, arr(U2).reshape(q, q)),
           "equal seeds give different results")


enlarge(just_fit_is_optimal, 24, M=gen.large(30, 600))
enlarge(stabilised_fit_is_optimal_for_its_delay, 24, M=gen.large(30, 600))
