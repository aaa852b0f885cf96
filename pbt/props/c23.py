"""C23: filter utilities."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import arr, close, close_el, enlarge, expect, law, raises, unpack

RULE = "polynomial of degree at least 1, filter or window of at least 3 taps; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): polynomials generated by their roots, definitions evaluated directly (group delay by term-wise differentiation, local least-squares polynomials, windowed sinc), metamorphic relations"


def F():
    from PyDynamic.misc import filterstuff

    return filterstuff


# ------------------------------------------------------------------ roots
def roots_case():
    return gen.fd(n=st.integers(0, 7), s=gen.seeds(),
                  pat=st.sampled_from(["in", "out", "one_out", "pair_out", "mixed", "near",
                                       "near_out", "neg_out", "double"]),
                  lead=st.sampled_from([1.0, 1.0, -1.0, 3.0, 1e-3, 250.0]), zero=st.integers(0, 6),
                  form=st.sampled_from(["array", "list"]))


def make_roots(c):
    """real poly roots of modulus inside/outside as given by the pattern, none close to 1"""
    r = np.random.RandomState(c["s"])
    n, pat = c["n"], c["pat"]
    roots = []

    def mod(outside):
        if pat in ("near", "near_out"):
            return 1 / r.uniform(0.96, 0.985) if outside else r.uniform(0.96, 0.985)
        return 1 / r.uniform(0.25, 0.95) if outside else r.uniform(0.15, 0.95)

    def add(outside, pair):
        for _ in range(50):
            m = mod(outside)
            if pair:
                z = m * np.exp(1j * r.uniform(0.25, np.pi - 0.25))
            else:
                z = m * r.choice([-1.0, 1.0]) + 0j
                if pat == "neg_out" and outside:
                    z = -m + 0j
            if all(abs(z - q) > 0.15 for q in roots):
                break
        else:
            return
        roots.extend([z, np.conj(z)] if pair else [z])

    first = True
    while len(roots) < n:
        left = n - len(roots)
        out = dict(out=True, mixed=bool(r.rand() < 0.5), near_out=first, one_out=first,
                   neg_out=first, pair_out=first, double=bool(r.rand() < 0.3)).get(pat, False)
        out = out and pat != "in"
        pair = left >= 2 and (pat == "pair_out" and first or r.rand() < 0.5) and pat not in (
            "neg_out",) or (pat == "neg_out" and not first and left >= 2 and r.rand() < 0.5)
        if pat == "one_out" and first:
            pair = False
        k = len(roots)
        add(out, pair)
        if len(roots) == k:
            break
        first = False
    if pat == "double" and len(roots) >= 1 and abs(roots[0].imag) < 1e-12:
        roots.append(roots[0])
    return np.array(roots, complex)


def poly_of(c):
    v = make_roots(c)
    if c["zero"] == 0 and len(v):
        v = np.r_[v, 0.0]  # trailing zero coefficient: a pole at the origin
    a = np.real(np.poly(v)) * c["lead"] if len(v) else np.array([c["lead"]])
    return v, (a if c["form"] == "array" else [float(t) for t in a])


def rt(c):
    return c["n"] >= 1


def rcls(c):
    return ["pattern=" + c["pat"]]


@law("C23", roots_case(), quick=1500, nontrivial=rt, classify=rcls)
def digital_stability_means_poles_inside_the_unit_circle(c):
    """true iff all roots of the denominator have modulus < 1, whatever the numerator"""
    v, a = poly_of(c)
    r = np.random.RandomState(c["s"] + 3)
    b = r.randn(r.randint(1, 6))
    want = bool(np.all(np.abs(v) < 1))
    for bb, kw in ((b, {}), ([1.0], {"ftype": "digital"})):
        got = F().isstable(bb, a, **kw)
        expect(bool(got) == want, f"isstable says {got} for poles of modulus {np.abs(v)}")
    if want:
        y = np.zeros(80)
        # a stable filter has a decaying impulse response (independent confirmation)
        aa = np.asarray(a) / a[0]
        y[0] = 1.0
        for n in range(1, 80):
            for k in range(1, min(len(aa), n + 1)):
                y[n] -= aa[k] * y[n - k]
        if len(v) and np.max(np.abs(v)) < 0.8:
            expect(abs(y[-1]) <= max(abs(y)), "harness: impulse response grows")


@law("C23", gen.fd(c=roots_case(), sc=st.sampled_from([1.0, 1e2, 1e4, 1e-2])), quick=1000,
     nontrivial=lambda k: k["c"]["n"] >= 1, classify=lambda k: rcls(k["c"]))
def analog_stability_means_poles_in_the_left_half_plane(k):
    """true iff all roots have negative real part, independent of their modulus"""
    c = k["c"]
    z = make_roots(c)
    # map the disc to the half plane (bilinear), scaled to the wanted frequencies
    s = k["sc"] * (z - 1) / (z + 1) if len(z) else z
    z, s = z[np.abs(s.real) > 1e-3 * np.abs(s)], s[np.abs(s.real) > 1e-3 * np.abs(s)]
    a = np.real(np.poly(s)) * c["lead"] if len(s) else np.array([c["lead"]])
    want = bool(np.all(s.real < 0))
    got = F().isstable([1.0], a, ftype="analog")
    expect(bool(got) == want, f"isstable says {got} for analogue poles {s}")


@law("C23", gen.fd(t=st.text(max_size=8), c=roots_case()), quick=150,
     nontrivial=lambda k: k["c"]["n"] >= 1)
def unknown_filter_type_is_rejected(k):
    """only 'digital' and 'analog' are valid filter types"""
    if k["t"] in ("digital", "analog"):
        return
    v, a = poly_of(k["c"])
    raises(lambda: F().isstable([1.0], a, ftype=k["t"]), ValueError, "isstable")


@law("C23", roots_case(), quick=1200, nontrivial=rt, classify=rcls)
def mapinside_reflects_the_outer_roots_only(c):
    """roots of the result: inner ones kept, outer ones at the conjugate reciprocal; the
    magnitude response is preserved up to a factor; a second application changes nothing"""
    v, a = poly_of(c)
    if not len(v):
        return  # a constant has no roots
    a0 = np.array(a, float)
    g = arr(F().mapinside(a), None, "mapinside")
    expect(g.ndim == 1 and len(g) == len(v) + 1, f"degree changed: {g.shape} for {len(v)} roots")
    w = np.where(np.abs(v) > 1, 1 / np.conj(np.where(v == 0, 1, v)), v)
    want = np.real(np.poly(w)) if len(w) else np.ones(1)
    expect(g[0] != 0, "leading coefficient vanished")
    tol = 1e-4 if c["pat"] == "double" else 1e-7
    close(g / g[0], want, "mapped polynomial", rtol=tol, scale=np.sum(np.abs(want)))
    z = np.exp(1j * np.linspace(0, np.pi, 33))
    m0, m1 = np.abs(np.polyval(a0, z)), np.abs(np.polyval(g, z))
    q = m1 / m0
    expect(np.all(np.abs(q / q[0] - 1) <= (1e-2 if c["pat"] == "double" else 1e-4) / min(1, np.min(m0 / np.max(m0)) * 10)),
           "magnitude response changed its shape")
    expect(F().isstable([1.0], g), "mapped polynomial is not stable")
    g2 = arr(F().mapinside(g), g.shape, "second application")
    close(g2 / g2[0], g / g[0], "second application", rtol=tol * 10, scale=np.sum(np.abs(want)))


@law("C23", gen.fd(n=st.integers(1, 5), s=gen.seeds(), lead=st.integers(0, 2)), quick=500,
     nontrivial=rt)
def mapinside_reflects_the_roots_of_complex_polynomials(c):
    """roots without conjugate partners: every outer root moves radially to 1 / conj"""
    r = np.random.RandomState(c["s"])
    v = []
    for _ in range(60):
        m = r.uniform(0.2, 0.9)
        z = (1 / m if r.rand() < 0.5 else m) * np.exp(1j * r.uniform(-np.pi, np.pi))
        if all(abs(z - q) > 0.2 for q in v):
            v.append(z)
        if len(v) == c["n"]:
            break
    v = np.array(v)
    a = np.poly(v) * [1.0, -2.0, 1j][c["lead"]]
    g = arr(F().mapinside(a.copy()), (len(v) + 1,), "mapinside", complex_ok=True)
    want = np.poly(np.where(np.abs(v) > 1, 1 / np.conj(v), v))
    close(g / g[0], want, "mapped polynomial", rtol=1e-7, scale=np.sum(np.abs(want)), complex_ok=True)


# ------------------------------------------------------------------ group delay
def gd_case():
    return gen.fd(nb=gen.sizes(1, 8, 30), na=st.integers(0, 5), s=gen.seeds(),
                  bk=st.sampled_from(["randn", "minphase", "sym", "delay", "int", "lowpass"]),
                  lead=st.sampled_from([1.0, 1.0, 2.0, -0.5]),
                  nfft=gen.sizes(2, 8, 64, 512), Fs=st.sampled_from([1.0, 2.0, 100.0, 5e5, 0.1]),
                  default=st.integers(0, 6))


def gd_build(c):
    r = np.random.RandomState(c["s"])
    nb = c["nb"]
    k = c["bk"]
    if k == "randn":
        b = r.randn(nb)
    elif k == "minphase":
        b = gen.stable_poly(c["s"], nb - 1 if nb < 8 else 7, 0.8)
    elif k == "sym":
        b = r.rand(nb) + 0.1
        b = b + b[::-1]
    elif k == "delay":
        b = np.zeros(nb)
        b[-1] = 1.5
    elif k == "int":
        b = r.randint(-3, 4, nb)
        b[0] = 5
    else:
        b = np.hanning(nb + 2)[1:-1]
    a = gen.stable_poly(c["s"] + 1, c["na"], 0.9) * c["lead"]
    return b, a


@law("C23", gd_case(), quick=1200, nontrivial=lambda c: c["nb"] + c["na"] >= 3,
     classify=lambda c: ["numerator=" + c["bk"], "short" if 2 * c["nfft"] < c["nb"] + c["na"] else "long"])
def group_delay_is_the_phase_derivative(c):
    """-d arg H / d omega, evaluated term by term, on the documented frequency grid"""
    b, a = gd_build(c)
    n = 512 if c["default"] == 0 else c["nfft"]
    args = (b, a, c["Fs"]) if c["default"] == 0 else (b, a, c["Fs"], n)
    g, f = unpack(F().grpdelay(*args), 2)
    f = close(f, np.linspace(0, c["Fs"] / 2.0, n + 1), "frequencies", rtol=1e-12)
    z1 = np.exp(-2j * np.pi * f / c["Fs"])
    kb, ka = np.arange(len(b)), np.arange(len(a))
    Bv = np.polyval(b[::-1] * 1.0, z1)
    Av = np.polyval(a[::-1], z1)
    dB = np.polyval((kb * b)[::-1] * 1.0, z1)
    dA = np.polyval((ka * a)[::-1], z1)
    sB, sA = np.sum(np.abs(b)), np.sum(np.abs(a))
    ok = (np.abs(Bv) > 1e-5 * sB) & (np.abs(Av) > 1e-5 * sA)
    want = np.zeros(n + 1)
    want[ok] = np.real(dB[ok] / Bv[ok] - dA[ok] / Av[ok])
    g = arr(g, (n + 1,), "group delay")
    tol = 1e-10 * (len(b) + len(a)) * (sB / np.maximum(np.abs(Bv), 1e-5 * sB)) * (
        sA / np.maximum(np.abs(Av), 1e-5 * sA))
    bad = ok & (np.abs(g - want) > tol)
    expect(not np.any(bad), f"group delay at bins {np.nonzero(bad)[0][:4]}: {g[bad][:4]} "
                            f"instead of {want[bad][:4]}")


@law("C23", gd_case(), quick=300, nontrivial=lambda c: c["nb"] + c["na"] >= 3)
def group_delay_adds_for_cascades_and_delays(c):
    """a delay adds its length; a cascade adds the delays; gain and sampling rate do not matter"""
    b, a = gd_build(c)
    n = max(c["nfft"], 2)
    G = lambda b, a, Fs=c["Fs"]: arr(unpack(F().grpdelay(b, a, Fs, n), 2)[0], (n + 1,))
    g = G(b, a)
    z1 = np.exp(-1j * np.linspace(0, np.pi, n + 1))
    ok = (np.abs(np.polyval(b[::-1] * 1.0, z1)) > 1e-4 * np.sum(np.abs(b))) & (
        np.abs(np.polyval(a[::-1], z1)) > 1e-4 * np.sum(np.abs(a)))
    d = 1 + c["s"] % 5
    close(G(np.r_[np.zeros(d), b], a)[ok], g[ok] + d, "delayed filter", rtol=1e-6, scale=len(b) + 10)
    close(G(b * 3.0, a * -0.5)[ok], g[ok], "gain", rtol=1e-6, scale=len(b) + 10)
    close(G(b, a, 7.0 * c["Fs"])[ok], g[ok], "sampling rate", rtol=1e-12)
    m = gen.stable_poly(c["s"] + 9, 2, 0.7)
    close(G(np.convolve(b, m), a)[ok], (g + G(m, np.ones(1)))[ok], "cascade", rtol=1e-5,
          scale=len(b) + 10)


# ------------------------------------------------------------------ Kaiser low-pass
@law("C23", gen.fd(L=gen.sizes(1, 20, 60, 300), fc=gen.nice(0.01, 0.98),
                   Fs=st.sampled_from([1.0, 2.0, 1e3, 5e5, 44.1]),
                   beta=st.sampled_from([None, 8.0, 0.0, 2.5, 14.0, 5])),
     quick=800, nontrivial=lambda c: c["L"] >= 3,
     classify=lambda c: ["even" if c["L"] % 2 == 0 else "odd", f"beta={c['beta']}"])
def kaiser_lowpass_is_the_windowed_sinc(c):
    """symmetric, unit gain at zero frequency, odd length, integer shift = group delay"""
    L, Fs = c["L"], c["Fs"]
    fc = c["fc"] * Fs / 2
    kw = {} if c["beta"] is None else {"beta": c["beta"]}
    b, shift = unpack(F().kaiser_lowpass(L, fc, Fs, **kw), 2)
    n = L + 1 if L % 2 == 0 else L
    m = np.arange(n) - (n - 1) / 2
    h = np.sinc(2 * fc / Fs * m) * np.kaiser(n, 8.0 if c["beta"] is None else c["beta"])
    b = close(b, h / np.sum(h), "coefficients", rtol=1e-9)
    close(b[::-1], b, "symmetry", rtol=1e-12)
    expect(abs(np.sum(b) - 1) <= 1e-9, "gain at frequency zero is not one")
    expect(isinstance(shift, (int, np.integer)) and int(shift) == (n - 1) // 2,
           f"shift {shift!r} for {n} coefficients")
    if n >= 3:
        g, f = unpack(F().grpdelay(b, np.ones(1), Fs, 16), 2)
        expect(abs(float(np.asarray(g)[0]) - shift) <= 1e-8 * n, "shift is not the group delay")


# ------------------------------------------------------------------ Savitzky-Golay
def sg_case():
    return gen.fd(w=st.integers(1, 9), o=st.integers(0, 6), d=st.integers(0, 4), s=gen.seeds(),
                  extra=st.integers(0, 25), y=gen.vspec(), delta=st.sampled_from([1.0, 0.1, 2.0, 1e-3]),
                  poly=st.booleans(), intdata=st.integers(0, 4))


def sg_pars(c):
    W = 2 * c["w"] + 1
    o = min(c["o"], W - 2)
    return W, o, min(c["d"], o)


@law("C23", sg_case(), quick=1200, nontrivial=lambda c: c["extra"] >= 1,
     classify=lambda c: [f"deriv={sg_pars(c)[2]}", f"order={sg_pars(c)[1]}"])
def savitzky_golay_is_the_local_polynomial_fit(c):
    """interior samples: derivative of the least-squares polynomial of the window"""
    W, o, d = sg_pars(c)
    N = W + c["extra"]
    y = gen.vec(c["y"], N)
    if c["intdata"] == 0:
        y = np.random.RandomState(c["s"]).randint(-9, 10, N)
    kw = {}
    if d or c["s"] % 2:
        kw["deriv"] = d
    if c["delta"] != 1.0 or c["s"] % 3:
        kw["delta"] = c["delta"]
    g = arr(F().savitzky_golay(y, W, o, **kw), (N,), "smoothed signal")
    h = W // 2
    k = np.arange(-h, h + 1) / float(h)  # scaled for conditioning
    V = np.vander(k, o + 1, increasing=True)
    R = np.linalg.pinv(V)
    fact = float(np.prod(np.arange(1, d + 1))) if d else 1.0
    m = R[d] * fact / (h * c["delta"]) ** d
    want = np.array([m.dot(y[i - h:i + h + 1]) for i in range(h, N - h)])
    close(g[h:N - h], want, "interior", rtol=1e-7, scale=np.sum(np.abs(m)) * np.max(np.abs(y)))


@law("C23", sg_case(), quick=500, nontrivial=lambda c: c["extra"] >= 1)
def savitzky_golay_reproduces_polynomials(c):
    """a polynomial up to the order and its derivatives come out unchanged"""
    W, o, d = sg_pars(c)
    N = W + c["extra"]
    r = np.random.RandomState(c["s"])
    p = np.poly1d(r.uniform(-1, 1, o + 1))
    t = (np.arange(N) - r.randint(0, N)) * c["delta"]
    sc = np.max(np.abs(t))
    q = p(t / sc)
    y = q
    g = arr(F().savitzky_golay(y, W, o, deriv=d, delta=c["delta"]), (N,))
    want = (p.deriv(d) if d else p)(t / sc) / sc ** d
    h = W // 2
    close(g[h:N - h], np.asarray(want)[h:N - h], "interior of a polynomial", rtol=1e-6,
          scale=np.max(np.abs(y)) * 10 / (h * c["delta"]) ** d)


@law("C23", gen.fd(w=st.integers(-3, 12), o=st.integers(0, 8), n=st.integers(13, 40), s=gen.seeds()),
     quick=300, nontrivial=lambda c: c["w"] >= 3)
def savitzky_golay_limits(c):
    """odd positive window larger than the order + 1 accepted, everything else rejected"""
    y = np.random.RandomState(c["s"]).randn(c["n"])
    w, o = c["w"], c["o"]
    if w >= 1 and w % 2 == 1 and w >= o + 2:
        arr(F().savitzky_golay(y, w, o), (c["n"],), "smoothed signal")
    elif w >= 0:
        raises(lambda: F().savitzky_golay(y, w, o), (TypeError, ValueError), f"window {w}, order {o}")


# ------------------------------------------------------------------ helpers
@law("C23", gen.fd(n=gen.sizes(1, 12, 60), s=gen.seeds(), wind=gen.nice(-2.5, 2.5), a=gen.amps()),
     quick=500, nontrivial=lambda c: c["n"] >= 3)
def decibels_and_unwrapped_angle(c):
    """20 log10 |x|; the angle follows a slowly turning phase continuously"""
    r = np.random.RandomState(c["s"])
    n = c["n"]
    mod = (0.05 + r.rand(n)) * c["a"]
    ph = np.cumsum(np.clip(c["wind"] + 0.4 * r.randn(n), -3.0, 3.0))
    z = mod * np.exp(1j * ph)
    for x in (z, mod * np.where(r.rand(n) < 0.5, -1, 1)):
        close(F().db(x), np.log(np.abs(x)) / np.log(10) * 20, "decibels", rtol=1e-12, scale=10)
    u = arr(F().ua(z), (n,), "angle")
    k = np.round((u[0] - ph[0]) / (2 * np.pi))
    close(u - 2 * np.pi * k, ph, "unwrapped angle", rtol=1e-9, scale=1 + np.max(np.abs(ph)))
    expect(-np.pi <= u[0] <= np.pi, "angle starts outside of the principal branch")


enlarge(decibels_and_unwrapped_angle, 24, n=gen.large(60, 3000))
