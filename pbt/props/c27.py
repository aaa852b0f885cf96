"""C27: vector and matrix helpers."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Violation, arr, close, enlarge, expect, law, raises, symmetric_psd, unpack

RULE = "at least 3 elements (matrices at least 2 x 2) and a non-trivial shift, length or eigenvalue; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): element-wise definitions, inverse and composition relations, exact Gaussian moments for the Monte Carlo helper, parsing the printed text back"


def F():
    from PyDynamic.misc import tools

    return tools


# ------------------------------------------------------------------ shift
def shcase():
    return gen.fd(n=gen.sizes(1, 10, 40), s=gen.seeds(), k=st.integers(-60, 60),
                  form=st.sampled_from(["float", "vec", "mat"]), x=gen.vspec(wide=True),
                  U=gen.cspec(), lst=st.booleans(), k2=st.integers(-20, 20))


@law("C27", shcase(), quick=900, nontrivial=lambda c: c["n"] >= 3 and c["k"] % c["n"] != 0,
     classify=lambda c: ["form=" + c["form"]])
def shift_moves_values_and_uncertainty_together(c):
    """element i moves to i + s (cyclically) in values, vector and both matrix axes"""
    n, k = c["n"], c["k"]
    x = gen.vec(c["x"], n)
    ux = {"float": 0.3, "vec": np.random.RandomState(c["s"]).rand(n),
          "mat": np.random.RandomState(c["s"]).randn(n, n)}[c["form"]]
    if c["form"] == "mat" and c["s"] % 2:
        ux = gen.cov(c["U"], n)
    x0, u0 = np.array(x), np.array(ux)
    f = F().shift_uncertainty
    xs, us = unpack(f([float(v) for v in x] if c["lst"] else x, ux, k), 2)
    d = (np.arange(n) + k) % n
    want = np.zeros(n)
    want[d] = x
    xs = close(xs, want, "shifted values", rtol=0)
    if c["form"] == "float":
        expect(us == ux, "scalar uncertainty changed")
    elif c["form"] == "vec":
        w = np.zeros(n)
        w[d] = ux
        close(us, w, "shifted uncertainty", rtol=0)
    else:
        w = np.zeros((n, n))
        w[np.ix_(d, d)] = ux
        close(us, w, "shifted covariance", rtol=0)
    xb, ub = unpack(f(xs, us, -k), 2)
    close(xb, x0, "shifted back", rtol=0)
    close(ub, u0, "uncertainty shifted back", rtol=0)
    x2, u2 = unpack(f(xs, us, c["k2"]), 2)
    x3, u3 = unpack(f(x, ux, k + c["k2"]), 2)
    close(x2, arr(x3), "composed shifts", rtol=0)
    close(u2, arr(u3), "uncertainty of composed shifts", rtol=0)
    expect(np.array_equal(x, x0) and np.array_equal(ux, u0), "inputs were changed")
    raises(lambda: f(x, np.zeros((n, n, n)), k), Exception, "three-dimensional uncertainty")
    raises(lambda: f(x, np.zeros((n, n + 1)), k), Exception, "non-square covariance")
    raises(lambda: f(x, "0.1", k), Exception, "text as uncertainty")


# ------------------------------------------------------------------ trimOrPad
@law("C27", gen.fd(n=gen.sizes(1, 10, 40), m=gen.sizes(0, 15, 50), s=gen.seeds(), form=st.sampled_from(
        ["float", "int", "list", "complex"]), mode=st.sampled_from([None, "constant", "edge", "reflect"])),
     quick=600, nontrivial=lambda c: c["n"] >= 3 and c["m"] != c["n"],
     classify=lambda c: ["pad" if c["m"] > c["n"] else "trim", f"mode={c['mode']}"])
def trim_or_pad_keeps_the_leading_elements(c):
    """requested length; leading elements kept; zeros (or the np.pad mode) at the right"""
    n, m = c["n"], c["m"]
    r = np.random.RandomState(c["s"])
    a = r.randn(n)
    if c["form"] == "int":
        a = r.randint(-9, 10, n)
    elif c["form"] == "complex":
        a = a + 1j * r.randn(n)
    arg = [float(v) for v in a] if c["form"] == "list" else a
    kw = {} if c["mode"] is None else {"mode": c["mode"]}
    if c["mode"] == "reflect" and m > n and n == 1:
        return
    g = arr(F().trimOrPad(arg, m, **kw), (m,), "result", complex_ok=True)
    k = min(n, m)
    close(g[:k], a[:k], "leading elements", rtol=0, complex_ok=True)
    if m > n:
        if c["mode"] in (None, "constant"):
            expect(np.all(g[n:] == 0), "padding is not zero")
        elif c["mode"] == "edge":
            expect(np.all(g[n:] == a[-1]), "padding is not the edge value")
        else:
            per = np.concatenate([a, a[-2:0:-1]]) if n > 1 else a
            close(g, per[np.arange(m) % len(per)], "reflected padding", rtol=0, complex_ok=True)


# ------------------------------------------------------------------ make_semiposdef
def spd():
    return gen.fd(n=st.integers(1, 9), s=gen.seeds(), neg=st.sampled_from(
        ["none", "none", "tiny", "small", "one", "all", "zero", "singular", "asym", "asymneg"]),
        a=st.sampled_from([1.0, 1e-3, 1e3, 7.0]), tol=st.sampled_from([None, 1e-12, 1e-9, 1e-6]),
        maxiter=st.sampled_from([None, 10, 1, 3, 50]), intm=st.integers(0, 5), sparse=st.booleans())


def build(c, n):
    r = np.random.RandomState(c["s"])
    Q, _ = np.linalg.qr(r.randn(n, n))
    e = r.uniform(0.5, 3, n)
    k = c["neg"]
    i = r.randint(n)
    if k == "tiny":
        e[i] = -1e-13
    elif k == "small":
        e[i] = -1e-5
    elif k == "one":
        e[i] = -r.uniform(0.2, 2)
    elif k == "all":
        e = -e
    elif k == "zero":
        e = np.zeros(n)
    elif k == "singular":
        e[i] = 0.0
    elif k == "asymneg":
        e[i] = -1.0
    A = (Q * e).dot(Q.T)
    A = (A + A.T) / 2
    if k.startswith("asym"):
        B = r.randn(n, n) * 0.1
        A = A + B - B.T
    if c["intm"] == 0:
        A = np.round(A * 3)
        A = (A if k.startswith("asym") else np.round((A + A.T) / 2)).astype(int)
        return A
    return A * c["a"]


def judge(G, A, c, kw, what):
    n = len(A)
    S = (A + A.T) / 2.0
    sc = max(np.max(np.abs(S)), 1e-300)
    tol = kw.get("tol", 1e-12)
    G = arr(G, (n, n), what)
    expect(np.all(np.abs(G - G.T) <= 1e-12 * sc + 2 * tol), f"{what}: not symmetric")
    e0 = np.linalg.eigvalsh(S)[0]
    D = G - S
    off = D - np.diag(np.diag(D))
    eps = 1e-12 * sc * n
    expect(np.all(np.abs(off) <= eps), f"{what}: more than the eigenvalues was changed")
    d = np.diag(D)
    expect(np.all(np.abs(d - d[0]) <= eps) and d[0] >= -eps, f"{what}: eigenvalues changed unevenly or lowered")
    if kw.get("maxiter", 10) >= 1:
        e1 = np.linalg.eigvalsh((G + G.T) / 2)[0]
        expect(e1 >= -eps, f"{what}: smallest eigenvalue {e1} after the repair (was {e0})")
    if e0 > 2 * tol + eps:
        expect(np.all(np.abs(D) <= 1e-13 * sc), f"{what}: positive definite matrix was changed")
    it = kw.get("maxiter", 10) + 1
    expect(d[0] <= max(0.0, -e0) * 1.0001 + it * (2 * tol + eps) * 4, f"{what}: eigenvalues raised by {d[0]} for smallest eigenvalue {e0}")


def kws(c):
    return {k: c[k] for k in ("tol", "maxiter") if c[k] is not None}


@law("C27", spd(), quick=900, nontrivial=lambda c: c["n"] >= 2,
     classify=lambda c: ["kind=" + c["neg"], f"maxiter={c['maxiter']}"])
def semidefinite_repair_of_dense_matrices(c):
    """symmetric, positive semi-definite, only the eigenvalues raised by just enough;
    good matrices unchanged; idempotent; terminates"""
    A = build(c, c["n"])
    A0 = np.array(A)
    kw = kws(c)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        G = F().make_semiposdef(A, **kw)
    expect(buf.getvalue() == "", "prints without being asked")
    judge(G, A0, c, kw, "repaired matrix")
    expect(np.array_equal(A, A0), "input was changed")
    G2 = F().make_semiposdef(np.array(G), **kw)
    judge(G2, arr(G), c, kw, "second repair")
    with contextlib.redirect_stdout(buf):
        H = F().make_semiposdef(A, verbose=True, **kw)
    close(H, arr(G), "verbose call", rtol=1e-12)
    expect(buf.getvalue() != "", "nothing printed by the verbose call")
    bad = np.zeros((c["n"], c["n"] + 1))
    raises(lambda: F().make_semiposdef(bad), ValueError, "non-square matrix")


@law("C27", gen.fd(c=spd(), m=st.integers(8, 18), fmt=st.sampled_from(["csr", "csc"])), quick=250,
     nontrivial=lambda k: True, classify=lambda k: ["kind=" + k["c"]["neg"]])
def semidefinite_repair_of_sparse_matrices(k):
    """the same for sparse matrices, and agreement with the dense result"""
    import scipy.sparse as sp

    c = dict(k["c"], intm=1)
    if c["neg"] == "zero":
        c["neg"] = "singular"
    A = build(c, k["m"])
    r = np.random.RandomState(c["s"])
    p = r.permutation(k["m"])[: k["m"] // 2]  # decouple some elements: real sparsity
    for i in p[: len(p) // 2]:
        d = A[i, i]
        A[i, :] = 0
        A[:, i] = 0
        A[i, i] = d
    M = getattr(sp, k["fmt"] + "_matrix")(A)
    kw = kws(c)
    G = F().make_semiposdef(M, **kw)
    expect(sp.issparse(G), "sparse matrix became dense")
    G = arr(G, A.shape, "repaired sparse matrix")
    e = np.linalg.eigvalsh((A + A.T) / 2)
    judge(G, A, c, dict(kw, tol=max(kw.get("tol", 1e-12), 1e-9 * np.max(np.abs(e)))), "repaired sparse matrix")
    expect(np.array_equal(M.toarray(), A), "input was changed")
    raises(lambda: F().make_semiposdef(sp.csr_matrix(np.zeros((9, 8)))), ValueError, "non-square matrix")


# ------------------------------------------------------------------ FreqResp2RealImag
@law("C27", gen.fd(n=st.integers(1, 5), s=gen.seeds(), U=gen.cspec(("ident", "diag", "full", "rank1",
                                                                     "rank2", "diagz", "zero")),
                   ra=st.sampled_from([1e-3, 0.03, 0.2]), rp=st.sampled_from([1e-3, 0.05, 0.3]),
                   runs=st.sampled_from([None, 4000, 1e4]), form=st.sampled_from(["mat", "vec", "lists"])),
     quick=400, nontrivial=lambda c: c["U"]["k"] != "zero",
     classify=lambda c: ["form=" + c["form"], "U=" + c["U"]["k"]])
def polar_monte_carlo_has_the_exact_moments(c):
    """per-frequency means and covariance of A exp(jP) for Gaussian A, P (closed form)"""
    n = c["n"]
    r = np.random.RandomState(c["s"])
    A, P = r.uniform(0.3, 3, n), r.uniform(-np.pi, np.pi, n)
    U = gen.cov(dict(c["U"], a=1.0), 2 * n)
    if c["form"] == "vec":
        U = np.diag(np.diag(U))
    s = np.r_[A * c["ra"], np.full(n, c["rp"])] / np.sqrt(max(np.max(np.diag(U)), 1e-300))
    U = U * np.outer(s, s)
    Ua = np.diag(U).copy() if c["form"] == "vec" else U
    kw = {} if c["runs"] is None else {"MCruns": c["runs"]}
    N = int(c["runs"] or 1e4)
    a = (list(A), list(P), U.tolist()) if c["form"] == "lists" else (A, P, Ua)
    np.random.seed(c["s"])
    Re, Im, C = unpack(F().FreqResp2RealImag(*a, **kw), 3)
    Re, Im = arr(Re, (n,), "Re"), arr(Im, (n,), "Im")
    C = symmetric_psd(np.atleast_2d(arr(C)), "covariance", n=2 * n)
    # exact moments: E[A e^{jt}] = (A + j cov(A, t)) e^{j mu - var/2}
    ca = lambda i, w: U[i].dot(w)
    mean = np.zeros(n, complex)
    wv = np.eye(2 * n)
    for i in range(n):
        w = wv[n + i]
        mean[i] = (A[i] + 1j * ca(i, w)) * np.exp(1j * P[i] - U[n + i, n + i] / 2)
    PP, PC = np.zeros((n, n), complex), np.zeros((n, n), complex)
    for i in range(n):
        for k in range(n):
            for sg, M in ((1, PP), (-1, PC)):
                w = wv[n + i] + sg * wv[n + k]
                mu = P[i] + sg * P[k]
                M[i, k] = ((A[i] + 1j * ca(i, w)) * (A[k] + 1j * ca(k, w)) + U[i, k]) * np.exp(
                    1j * mu - w.dot(U).dot(w) / 2)
    Crr, Cii = (PC + PP).real / 2, (PC - PP).real / 2
    Cri = (PP - PC).imag / 2  # E[Re_i Im_k]
    full = np.block([[Crr, Cri], [Cri.T, Cii]])
    mri = np.r_[mean.real, mean.imag]
    want = full - np.outer(mri, mri)
    v = np.maximum(np.diag(want), 0)
    d = np.r_[Re, Im] - mri
    expect(np.all(np.abs(d) <= 8 * np.sqrt(v / N) + 1e-9 * np.max(A)), f"mean values deviate by {np.max(np.abs(d))}")
    tol = 12 * np.sqrt((np.outer(v, v) + want ** 2) / N) + 1e-12 * np.max(A) ** 2
    # quadratic parts (chi-squared like) where the linear sensitivity vanishes
    h = np.r_[A, A] * c["rp"] ** 2 + np.r_[A, A] * c["ra"] * c["rp"]
    tol += 40 / np.sqrt(N) * (np.outer(h, np.sqrt(v)) + np.outer(np.sqrt(v), h) + np.outer(h, h))
    bad = np.abs(C - want) > tol
    if np.any(bad):
        i, k = np.argwhere(bad)[0]
        raise Violation(f"covariance ({i},{k}): {C[i, k]:.5g}, exact {want[i, k]:.5g}, band {tol[i, k]:.2g}")


@law("C27", gen.fd(n=st.integers(1, 5), d=st.integers(-2, 2), e=st.integers(-2, 2)), quick=60,
     nontrivial=lambda c: c["d"] != 0 or c["e"] != 0)
def polar_monte_carlo_checks_lengths(c):
    """inconsistent lengths are a ValueError, consistent ones are accepted"""
    n = c["n"]
    m, k = n + c["d"], 2 * n + c["e"]
    if m < 1 or k < 1:
        return
    f = lambda: F().FreqResp2RealImag(np.ones(n), np.zeros(m), np.full(k, 0.01), MCruns=50)
    if m == n and k == 2 * n:
        unpack(f(), 3)
    else:
        raises(f, ValueError, "inconsistent lengths")


# ------------------------------------------------------------------ text helpers
def txt():
    return gen.fd(n=st.integers(1, 6), m=st.integers(1, 6), s=gen.seeds(), prec=st.sampled_from([None, 1, 3, 5, 9, 16]),
                  a=st.sampled_from([1.0, 1e-8, 1e10, 1e-3]), intd=st.integers(0, 3), vertical=st.booleans())


@law("C27", txt(), quick=500, nontrivial=lambda c: c["n"] >= 2 and c["m"] >= 2)
def printed_numbers_can_be_read_back(c):
    """rows, order and values (to the requested significant digits) of printed vectors and
    matrices; the string form equals what is printed"""
    r = np.random.RandomState(c["s"])
    M = r.randn(c["n"], c["m"]) * c["a"]
    if c["intd"] == 0:
        M = r.randint(-99, 100, (c["n"], c["m"]))
    kw = {} if c["prec"] is None else {"prec": c["prec"]}
    rtol = 0.51 * 10.0 ** (1 - (c["prec"] or 5))
    v = M[0]

    def out(fn, *a, **k):
        s = fn(*a, retS=True, **k)
        expect(isinstance(s, str), "no string returned")
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            ret = fn(*a, **k)
        expect(buf.getvalue().rstrip("\n") == s.rstrip("\n"), "printed and returned text differ")
        return s

    def parse(line):
        try:
            return np.array([float(t) for t in line.split()])
        except ValueError as e:
            raise Violation(f"text is not numeric: {e}")

    ok = lambda g, w: g.shape == w.shape and np.all(np.abs(g - w) <= rtol * np.abs(w) * 1.0001)
    s = out(F().print_vec, v if c["s"] % 2 else list(v), vertical=c["vertical"], **kw)
    expect(ok(parse(s), v * 1.0), f"vector {v} printed as {s!r}")
    lines = [x for x in s.split("\n") if x.strip()]
    expect(len(lines) == (len(v) if c["vertical"] else 1), "line structure of the vector")
    s = out(F().print_mat, M, vertical=c["vertical"], **kw)
    W = M.T if c["vertical"] else M
    lines = [x for x in s.split("\n") if x.strip()]
    expect(len(lines) == len(W), "number of printed rows")
    for row, line in zip(W, lines):
        expect(ok(parse(line), row * 1.0), f"row {row} printed as {line!r}")


@law("C27", gen.fd(n=st.integers(1, 60), w=st.one_of(st.none(), st.integers(1, 50)), pre=st.sampled_from(
        ["", "Progress: "]), d=st.sampled_from(["#", "="]), t=st.sampled_from([".", "-"])), quick=200,
     nontrivial=lambda c: c["n"] >= 3)
def progress_bar_advances(c):
    """constant width, done part = floor(width (count+1)/max), full at the end, counter shown"""
    kw = {} if c["w"] is None else {"width": c["w"]}
    w = c["w"] or 30
    for i in range(c["n"]):
        b = io.StringIO()
        F().progress_bar(i, c["n"], prefix=c["pre"], done_indicator=c["d"], todo_indicator=c["t"], fout=b, **kw)
        s = b.getvalue()
        expect(s.startswith(c["pre"] + "["), f"prefix or bar missing in {s!r}")
        bar = s[len(c["pre"]) + 1: s.index("]", len(c["pre"]))]
        expect(len(bar) == w, f"bar of {len(bar)} instead of {w} characters")
        k = (w * (i + 1)) // c["n"]
        expect(abs(bar.count(c["d"]) - k) <= 1 and bar == c["d"] * bar.count(c["d"]) + c["t"] * bar.count(c["t"]),
               f"bar {bar!r} at {i + 1}/{c['n']}")
        if i == c["n"] - 1:
            expect(bar == c["d"] * w, "bar is not full at the end")
        expect(f"{i + 1}/{c['n']}" in s[s.index("]"):], f"counter missing in {s!r}")


enlarge(shift_moves_values_and_uncertainty_together, 16, n=gen.large(40, 600))
