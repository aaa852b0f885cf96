"""C08: division and multiplication in the frequency domain."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, close, close_cov, enlarge, expect, law, unpack
from .c04 import D
from .c06 import polar, cart

RULE = "at least 2 lines and a non-zero uncertainty of one factor; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis) against the analytic Jacobian of complex division and multiplication"


def uspec():
    return st.one_of(gen.fd(form=st.just("mat"), u=gen.cspec(wide=True)),
                     gen.fd(form=st.just("mat"), u=gen.cspec(wide=True)),
                     gen.fd(form=st.just("vec"), u=gen.uspec(wide=True)),
                     gen.fd(form=st.just("imat"), u=gen.seeds()))


def uarg(spec, n):
    if spec["form"] == "vec":
        v = gen.uvec(spec["u"], n) ** 2
        return v, np.diag(v)
    if spec["form"] == "imat":
        A = np.random.RandomState(spec["u"]).randint(-2, 3, (n, n))
        return A.dot(A.T), A.dot(A.T).astype(float)
    U = gen.cov(spec["u"], n)
    return U, U.copy()


def case():
    return gen.fd(M=gen.sizes(1, 8, 20), a=gen.seeds(), b=gen.seeds(),
                  special=st.booleans(), ua=uspec(), ub=uspec(),
                  intv=st.integers(0, 5))


def nt(c):
    return c["M"] >= 2


def cls(c):
    return [f"U1={c['ua']['form']}", f"U2={c['ub']['form']}"]


def blk(z, conj_first=False):
    """real matrix of multiplication by the complex vector z"""
    M = len(z)
    J = np.zeros((2 * M, 2 * M))
    i = np.arange(M)
    J[i, i] = z.real
    J[i, M + i] = -z.imag
    J[M + i, i] = z.imag
    J[M + i, M + i] = z.real
    B = np.zeros_like(J)
    for r in (i, M + i):
        B[r, i] = B[r, M + i] = np.abs(z)
    return J, B


def values(c):
    M = c["M"]
    z = cart(*polar(c["a"], M, c["special"]))
    w = cart(*polar(c["b"], M, c["special"]))
    if c["intv"] == 0:
        r = np.random.RandomState(c["a"])
        z = r.randint(1, 5, 2 * M) * r.choice([-1, 1], 2 * M)
    return z, w


def check_div(fn, c):
    M = c["M"]
    H, Y = values(c)
    uh, UH = uarg(c["ua"], 2 * M)
    uy, UY = uarg(c["ub"], 2 * M)
    X, UX = unpack(fn(H, Y, uh, uy), 2)
    Hc, Yc = ref.cplx(H), ref.cplx(Y)
    Xc = Yc / Hc
    d = np.abs(arr(X, (2 * M,), "quotient") - ref.ri(Xc))
    expect(np.all(d <= 1e-12 * np.r_[np.abs(Xc), np.abs(Xc)]), "values differ from Y/H")
    JY, BY = blk(1 / Hc)
    JH, BH = blk(-Yc / Hc ** 2)
    Z = np.zeros((2 * M, 2 * M))
    close_cov(UX, np.hstack([JY, JH]), np.block([[UY, Z], [Z, UH]]), "covariance of Y/H",
              rtol=1e-10, bound=np.hstack([BY, BH]))
    return H, Y, uh, uy, X, UX


@law("C08", case(), quick=1100, nontrivial=nt, classify=cls)
def deconvolution(c):
    """DFT_deconv: Y/H and J diag(UY, UH) J^T"""
    check_div(D().DFT_deconv, c)


@law("C08", case(), quick=500, nontrivial=nt, classify=cls)
def transfer_function(c):
    """DFT_transferfunction: output over input"""
    check_div(D().DFT_transferfunction, c)


@law("C08", case(), quick=300, nontrivial=nt, classify=cls)
def sparse_and_vector_forms(c):
    """vector of variances = diagonal matrix; per-line blocks in sparse form = dense"""
    from scipy import sparse
    M = c["M"]
    H, Y = values(c)
    v = gen.uvec(dict(k="pos", s=c["a"], a=1.0), 2 * M) ** 2
    uh, UH = uarg(c["ua"], 2 * M)
    X1, U1 = unpack(D().DFT_deconv(H, Y, uh, v), 2)
    X2, U2 = unpack(D().DFT_deconv(H, Y, UH, np.diag(v)), 2)
    close(X2, arr(X1), "values", rtol=1e-13)
    close(U2, arr(U1), "covariance for matrix vs vector", rtol=1e-10)
    r = np.random.RandomState(c["b"])
    cross = r.uniform(-1, 1, M) * np.sqrt(v[:M] * v[M:])
    S = sparse.diags([v, cross, cross], [0, M, -M])
    X3, U3 = unpack(D().DFT_deconv(H, Y, UH, S), 2)
    X4, U4 = unpack(D().DFT_deconv(H, Y, UH, S.toarray()), 2)
    close(X3, arr(X4), "values", rtol=1e-13)
    close(U3, arr(U4), "covariance for sparse vs dense", rtol=1e-10)


@law("C08", gen.fd(M=gen.sizes(1, 8, 20), a=gen.seeds(), b=gen.seeds(),
                   special=st.booleans(), ua=uspec(), ub=st.one_of(st.none(), uspec()),
                   intv=st.integers(0, 5)),
     quick=1100, nontrivial=nt,
     classify=lambda c: [f"UY={c['ua']['form']}", f"UF={c['ub'] and c['ub']['form']}"])
def multiplication(c):
    """DFT_multiply: Y F and J diag(UY, UF) J^T, with a certain or uncertain second factor"""
    M = c["M"]
    Y, F = values(c)
    uy, UY = uarg(c["ua"], 2 * M)
    Yc, Fc = ref.cplx(Y), ref.cplx(F)
    JY, BY = blk(Fc)
    if c["ub"] is None:
        out = unpack(D().DFT_multiply(Y, F, uy), 2)
        J, B, U = JY, BY, UY
    else:
        uf, UF = uarg(c["ub"], 2 * M)
        out = unpack(D().DFT_multiply(Y, F, uy, uf), 2)
        JF, BF = blk(Yc)
        Z = np.zeros((2 * M, 2 * M))
        J, B, U = np.hstack([JY, JF]), np.hstack([BY, BF]), np.block([[UY, Z], [Z, UF]])
    P = Yc * Fc
    d = np.abs(arr(out[0], (2 * M,), "product") - ref.ri(P))
    expect(np.all(d <= 1e-12 * np.r_[np.abs(P), np.abs(P)]), "values differ from Y F")
    close_cov(out[1], J, U, "covariance of Y F", rtol=1e-10, bound=B)


@law("C08", case(), quick=400, nontrivial=nt, classify=cls)
def product_then_quotient(c):
    """(Y F) / F restores Y, and with a certain F also its covariance"""
    M = c["M"]
    Y, F = values(c)
    uy, UY = uarg(c["ua"], 2 * M)
    P, UP = unpack(D().DFT_multiply(Y, F, uy), 2)
    Z = np.zeros((2 * M, 2 * M))
    R, UR = unpack(D().DFT_deconv(F, np.asarray(P), Z, np.asarray(arr(UP))), 2)
    y = np.abs(ref.cplx(Y))
    expect(np.all(np.abs(arr(R, (2 * M,)) - Y) <= 1e-11 * np.r_[y, y]), "restored values")
    s = np.sqrt(np.diag(UY))
    loc = np.r_[s[:M] + s[M:], s[:M] + s[M:]]
    d = np.abs(arr(UR, UY.shape) - UY)
    expect(np.all(d <= 1e-9 * np.outer(loc, loc)), "restored covariance")


@law("C08", case(), quick=300, nontrivial=nt, classify=cls)
def factors_commute(c):
    """the product is symmetric in its two uncertain factors"""
    M = c["M"]
    Y, F = values(c)
    _, UY = uarg(c["ua"], 2 * M)
    _, UF = uarg(c["ub"], 2 * M)
    P1, U1 = unpack(D().DFT_multiply(Y, F, UY, UF), 2)
    P2, U2 = unpack(D().DFT_multiply(F, Y, UF, UY), 2)
    close(P2, arr(P1), "values", rtol=1e-12)
    close(U2, arr(U1), "covariance", rtol=1e-11)


enlarge(deconvolution, 24, M=gen.large(20, 260))
enlarge(transfer_function, 12, M=gen.large(20, 200))
enlarge(multiplication, 24, M=gen.large(20, 260))
