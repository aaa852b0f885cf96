"""C05: inverse DFT propagation."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from ..core import arr, close, close_cov, enlarge, expect, law, unpack
from .c04 import D, ux_args, ux_spec

RULE = "at least 3 spectral lines and a non-zero uncertainty; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): explicit inverse DFT matrix and round trip"


def nt(c):
    u = c["uf"]["u"]
    return c["M"] >= 3 and u["k"] != "zero"


def spec(small=9, mid=30):
    return gen.fd(M=gen.sizes(2, small, mid), F=gen.vspec(wide=True),
                  uf=st.one_of(gen.fd(form=st.just("mat"), u=gen.cspec(wide=True)),
                               gen.fd(form=st.just("mat"), u=gen.cspec(wide=True)),
                               gen.fd(form=st.just("vec"), u=gen.uspec())),
                  nx=st.one_of(st.none(), st.none(), st.integers(1, 60)), C=st.booleans(),
                  zero_im=st.booleans())


def cls(c):
    return [f"UF={c['uf']['form']}", f"Nx={'given' if c['nx'] else 'default'}",
            f"returnC={c['C']}"]


@law("C05", spec(), quick=1500, nontrivial=nt, classify=cls)
def linear_propagation(c):
    """inverse real FFT and J UF J^T, also truncated to Nx samples"""
    M = c["M"]
    N = 2 * (M - 1)
    F = gen.vec(c["F"], 2 * M)
    if c["zero_im"]:
        F[M] = 0.0
        F[-1] = 0.0
    if c["uf"]["form"] == "vec":
        U = gen.uvec(c["uf"]["u"], 2 * M) ** 2
    else:
        U = gen.cov(c["uf"]["u"], 2 * M)
    J = ref.idft_matrix(M)
    kw = {}
    if c["nx"]:
        nx = 1 + (c["nx"] - 1) % N
        kw["Nx"] = nx
        J = J[:nx]
    if c["C"]:
        kw["returnC"] = True
    out = unpack(D().GUM_iDFT(F, U, **kw), 3 if c["C"] else 2)
    close(out[0], J.dot(F), "time domain values", rtol=1e-11, scale=np.max(np.abs(F)))
    close(out[0], np.fft.irfft(F[:M] + 1j * F[M:])[:len(J)], "values vs irfft", rtol=1e-11,
          scale=np.max(np.abs(F)))
    got = close_cov(out[1], J, U, "time domain covariance", rtol=1e-11,
                    bound=np.full(J.shape, 2.0 / N))
    m = np.max(np.abs(got))
    expect(np.all(np.abs(got - got.T) <= 1e-10 * m), "covariance is not symmetric")
    if c["C"]:
        S = out[2]
        expect(isinstance(S, dict) and set(S) >= {"Cc", "Cs"}, "sensitivity dictionary")
        close(np.asarray(S["Cc"]) / N, J[:, :M], "cosine sensitivities", rtol=1e-10, scale=1)
        close(np.asarray(S["Cs"]) / N, J[:, M:], "sine sensitivities", rtol=1e-10, scale=1)
        o2 = unpack(D().GUM_iDFT(F, U, Cc=S["Cc"], Cs=S["Cs"],
                                 **({"Nx": kw["Nx"]} if "Nx" in kw else {})), 2)
        close(o2[1], got, "covariance with given sensitivities", rtol=1e-11)


@law("C05", gen.fd(h=gen.sizes(1, 8, 30), x=gen.vspec(wide=True), ux=ux_spec(False),
                   win=st.booleans()),
     quick=600, nontrivial=lambda c: c["h"] >= 2)
def round_trip(c):
    """iDFT(DFT(x, Ux)) returns x and Ux"""
    n = 2 * c["h"]
    x = gen.vec(c["x"], n)
    arg, U = ux_args(c["ux"], n)
    F, UF = unpack(D().GUM_DFT(x, arg), 2)
    UF = arr(UF, (n + 2, n + 2), "DFT covariance")
    y, Uy = unpack(D().GUM_iDFT(arr(F), UF), 2)
    close(y, x, "restored signal", rtol=1e-10)
    close(Uy, U, "restored covariance", rtol=1e-10)


@law("C05", gen.fd(M=gen.sizes(2, 8, 20), F=gen.vspec(), G=gen.vspec(), u=gen.cspec()),
     quick=200, nontrivial=lambda c: c["M"] >= 3)
def additive(c):
    """values are additive in the spectrum, covariance does not depend on it"""
    M = c["M"]
    F, G = gen.vec(c["F"], 2 * M), gen.vec(c["G"], 2 * M)
    U = gen.cov(c["u"], 2 * M)
    a = unpack(D().GUM_iDFT(F, U), 2)
    b = unpack(D().GUM_iDFT(G, U), 2)
    s = unpack(D().GUM_iDFT(F + G, U), 2)
    close(s[0], arr(a[0]) + arr(b[0]), "values", rtol=1e-10,
          scale=np.max(np.abs(F)) + np.max(np.abs(G)))
    close(s[1], arr(a[1]), "covariance", rtol=1e-12)
    close(b[1], arr(a[1]), "covariance", rtol=1e-12)


enlarge(linear_propagation, 32, M=gen.large(30, 300))
enlarge(round_trip, 16, h=gen.large(30, 200))
