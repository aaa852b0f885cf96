"""Every public function with a generator of valid calls (used by C09, C29, C30).

An entry is built from a numpy RandomState only, so a case is {function, seed}.
``args(r)`` returns a dict name -> value of the arguments to be given; ``sig`` is the
documented parameter order.  ``covs(out, a)`` lists (what, matrix) covariance results and
``stds(out, a)`` lists (what, array) standard uncertainties.
"""
import contextlib
import importlib
import io

import numpy as np

from . import gen
from .inputs import (CK, acov, covm, fir_noise, grid, polar_cart, signal, sos_resp, stable,
                       unc)

FUNCS = {}


def none(out, a):
    return []


class Fn:
    def __init__(self, name, module, sig, args, paths, random, cost, covs, stds):
        self.name, self.module, self.sig = name, module, sig.replace(" ", "").split(",")
        self.args, self.paths, self.random, self.cost = args, paths, random, cost
        self.covs, self.stds = covs or none, stds or none

    def get(self, path=None):
        """the function (path: module or module:name)"""
        mod, _, nm = (path or self.module).partition(":")
        return getattr(importlib.import_module(mod), nm or self.name.split("/")[0])


def fn(name, module, sig, paths=(), random=False, cost=1, covs=None, stds=None):
    def deco(f):
        FUNCS[name] = Fn(name, "PyDynamic." + module, sig, f,
                         [("PyDynamic." + p) if p and p[0] != ":" else "PyDynamic" + p for p in paths],
                         random, cost, covs, stds)
        return f
    return deco


def names(random=None, max_cost=1):
    return sorted(k for k, v in FUNCS.items()
                  if v.cost <= max_cost and (random is None or v.random == random))


def split(sig, a, npos):
    """positional and keyword part of the call"""
    pos = []
    for k in sig[:npos]:
        if k not in a:
            break
        pos.append(a[k])
    return pos, {k: v for k, v in a.items() if k not in sig[: len(pos)]}


def call(f, sig, a, npos=99):
    pos, kw = split(sig, a, npos)
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*pos, **kw)


def copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(copy(x) for x in v)
    if hasattr(v, "toarray"):
        return v.copy()
    return v


def same(p, q, rtol=0.0):
    """equal structure, types of container, and values"""
    if hasattr(p, "toarray") or hasattr(q, "toarray"):
        if not (hasattr(p, "toarray") and hasattr(q, "toarray")):
            return False
        return same(p.toarray(), q.toarray(), rtol)
    if isinstance(p, dict):
        return isinstance(q, dict) and p.keys() == q.keys() and all(
            same(p[k], q[k], rtol) for k in p)
    if isinstance(p, (list, tuple)):
        return type(p) is type(q) and len(p) == len(q) and all(
            same(x, y, rtol) for x, y in zip(p, q))
    if p is None or q is None or isinstance(p, str):
        return p is q or p == q
    x, y = np.asarray(p), np.asarray(q)
    if x.shape != y.shape or x.dtype != y.dtype:
        return False
    if x.dtype == object:
        return all(same(u, v, rtol) for u, v in zip(x.ravel(), y.ravel()))
    if not rtol or x.size == 0:
        return bool(np.all((x == y) | ((x != x) & (y != y))))
    if x.dtype.kind not in "fc":
        return bool(np.all(x == y))
    m = np.max(np.abs(np.where(np.isfinite(x), x, 0)))
    ok = (x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= rtol * m)
    return bool(np.all(ok))


def pick(r, *alts):
    return alts[r.randint(0, len(alts))]


PF = "uncertainty.propagate_filter"
PD = "uncertainty.propagate_DFT"
PM = "uncertainty.propagate_MonteCarlo"
FF = "model_estimation.fit_filter"
UP = ("uncertainty", "")


# ------------------------------------------------------------------ filters
def fir_covs(out, a):
    return [("filter output covariance", out[1])] if a.get("return_full_covariance") else []


def fir_stds(out, a):
    return [] if a.get("return_full_covariance") else [("filter output uncertainty", out[1])]


@fn("FIRuncFilter", PF, "y,sigma_noise,theta,Utheta,shift,blow,kind,return_full_covariance",
    UP, covs=fir_covs, stds=fir_stds)
def _(r):
    n, m = r.randint(1, 14), r.randint(1, 7)
    s, kind = fir_noise(r, n)
    a = dict(y=signal(r, n), sigma_noise=s, theta=r.randn(m))
    k = r.randint(0, 4)
    if k == 1:
        a["Utheta"] = unc(r, m)
    elif k:
        a["Utheta"] = covm(r, m)
    if r.rand() < 0.4:
        a["shift"] = r.randint(-5, 6)
    if r.rand() < 0.3:
        a["blow"] = r.rand(r.randint(1, 5))
    a["kind"] = kind
    if r.rand() < 0.5:
        a["return_full_covariance"] = True
    return a


@fn("IIRuncFilter", PF, "x,noise,b,a,Uab", UP, stds=lambda o, a: [("filter uncertainty", o[1])])
def _(r):
    n, p = r.randint(1, 14), r.randint(1, 4)
    return dict(x=signal(r, n), noise=pick(r, 0.3, unc(r, n)), b=r.randn(p + 1), a=stable(r, p),
                Uab=covm(r, 2 * p + 1))


@fn("convolve_unc", "uncertainty.propagate_convolution", "x1,U1,x2,U2,mode", (),
    covs=lambda o, a: [("convolution covariance", o[1])])
def _(r):
    n, m = r.randint(1, 10), r.randint(1, 10)
    a = dict(x1=signal(r, n), U1=covm(r, n, float), x2=signal(r, m), U2=covm(r, m, float))
    k = pick(r, "full", "valid", "same", "nearest", "reflect", "mirror", None)
    if r.rand() < 0.2:
        a["U1"] = None
    elif r.rand() < 0.2:
        a["U2"] = None
    if k:
        a["mode"] = k
    return a


# ------------------------------------------------------------------ DFT
def cov1(what, i):
    def f(o, a):
        U = np.asarray(o[i].toarray() if hasattr(o[i], "toarray") else o[i])
        return [(what, U)] if U.ndim == 2 else [(what, np.diag(U))]
    return f


@fn("GUM_DFT", PD, "x,Ux,N,window,CxCos,CxSin,returnC,mask", UP, covs=cov1("DFT covariance", 1))
def _(r):
    n = r.randint(1, 14)
    a = dict(x=signal(r, n), Ux=pick(r, 0.3, unc(r, n) ** 2, covm(r, n), covm(r, n)))
    N = n
    if r.rand() < 0.4:
        N = a["N"] = n + r.randint(0, 9)
    if r.rand() < 0.4:
        a["window"] = pick(r, np.hanning(n), r.randn(n), r.randint(0, 3, n))
    if r.rand() < 0.3:
        a["returnC"] = True
    if r.rand() < 0.3:
        a["mask"] = r.rand(N // 2 + 1) < 0.6
        a["mask"][0] = True
    if r.rand() < 0.15 and np.ndim(a["Ux"]):  # sensitivities given by the caller
        E = np.exp(-2j * np.pi * np.outer(np.arange(N // 2 + 1), np.arange(n)) / N)
        E = (1 + r.rand()) * E[a.get("mask", slice(None))]
        a["CxCos"], a["CxSin"] = E.real.copy(), E.imag.copy()
    return a


@fn("GUM_iDFT", PD, "F,UF,Nx,Cc,Cs,returnC", UP, covs=cov1("inverse DFT covariance", 1))
def _(r):
    M = r.randint(2, 9)
    a = dict(F=signal(r, 2 * M), UF=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M), covm(r, 2 * M)))
    if r.rand() < 0.4:
        a["Nx"] = r.randint(1, 2 * M - 1)
    if r.rand() < 0.3:
        a["returnC"] = True
    if r.rand() < 0.15:
        n = a.get("Nx", 2 * M - 2)
        a["Cc"], a["Cs"] = r.randn(n, M), r.randn(n, M)
    return a


@fn("GUM_DFTfreq", PD, "N,dt")
def _(r):
    a = dict(N=r.randint(1, 30))
    if r.rand() < 0.6:
        a["dt"] = pick(r, 1, 0.1, 1e-4)
    return a


@fn("DFT2AmpPhase", PD, "F,UF,keep_sparse,tol,return_type", UP,
    covs=lambda o, a: [("amplitude/phase covariance", o[-1])])
def _(r):
    M = r.randint(1, 9)
    a = dict(F=polar_cart(r, M)[2], UF=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M)))
    if r.rand() < 0.4:
        a["keep_sparse"] = bool(r.rand() < 0.5)
    if r.rand() < 0.3:
        a["tol"] = pick(r, 0.5, 10.0, 1.0)
    if r.rand() < 0.4:
        a["return_type"] = pick(r, "separate", "AP")
    return a


@fn("AmpPhase2DFT", PD, "A,P,UAP,keep_sparse", UP,
    covs=lambda o, a: [("real/imaginary covariance", o[-1])])
def _(r):
    M = r.randint(1, 9)
    A, P, _ = polar_cart(r, M)
    a = dict(A=A, P=P, UAP=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M)))
    if r.rand() < 0.4:
        a["keep_sparse"] = bool(r.rand() < 0.5)
    return a


@fn("Time2AmpPhase", PD, "x,Ux", UP, covs=lambda o, a: [("amplitude/phase covariance", o[2])])
def _(r):
    n = r.randint(2, 12)
    return dict(x=r.randn(n) + np.r_[5, np.zeros(n - 1)], Ux=pick(r, 0.1, unc(r, n) ** 2, covm(r, n)))


@fn("Time2AmpPhase_multi", PD, "x,Ux,selector")
def _(r):
    n, k = r.randint(2, 10), r.randint(1, 4)
    a = dict(x=r.randn(k, n) + np.r_[5, np.zeros(n - 1)],
             Ux=pick(r, 0.1 + r.rand(k), (0.1 + r.rand(k)).tolist()))
    if r.rand() < 0.6:
        a["selector"] = np.flatnonzero(r.rand(n // 2 + 1) < 0.5)
        if not len(a["selector"]):
            a["selector"] = np.array([0])
    return a


@fn("AmpPhase2Time", PD, "A,P,UAP", UP, covs=lambda o, a: [("time domain covariance", o[1])])
def _(r):
    M = r.randint(2, 9)
    A, P, _ = polar_cart(r, M)
    return dict(A=A, P=P, UAP=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M)))


@fn("DFT_transferfunction", PD, "X,Y,UX,UY", covs=lambda o, a: [("transfer function covariance", o[1])])
def _(r):
    M = r.randint(1, 8)
    return dict(X=polar_cart(r, M)[2], Y=signal(r, 2 * M), UX=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M)),
                UY=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M)))


@fn("DFT_deconv", PD, "H,Y,UH,UY", UP, covs=lambda o, a: [("deconvolution covariance", o[1])])
def _(r):
    M = r.randint(1, 8)
    return dict(H=polar_cart(r, M)[2], Y=signal(r, 2 * M), UH=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M)),
                UY=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M)))


@fn("DFT_multiply", PD, "Y,F,UY,UF", UP, covs=lambda o, a: [("product covariance", o[1])])
def _(r):
    M = r.randint(1, 8)
    a = dict(Y=signal(r, 2 * M), F=polar_cart(r, M)[2],
             UY=pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M)))
    if r.rand() < 0.7:
        a["UF"] = pick(r, unc(r, 2 * M) ** 2, covm(r, 2 * M))
    return a


# ------------------------------------------------------------------ interpolation
@fn("interp1d_unc", "uncertainty.interpolate",
    "t_new,t,y,uy,kind,copy,bounds_error,fill_value,fill_unc,assume_sorted,returnC",
    ("uncertainty.interpolation", "uncertainty", ""), stds=lambda o, a: [
        ("interpolation uncertainty", np.where(np.isnan(o[2]), 0.0, o[2]))])
def _(r):
    n = r.randint(2, 10)
    t = grid(r, n)
    m = r.randint(1, 12)
    a = dict(t_new=r.uniform(t[0], t[-1], m), t=t, y=signal(r, n), uy=unc(r, n))
    k = pick(r, None, "linear", "previous", "next", "nearest")
    if k:
        a["kind"] = k
    if r.rand() < 0.4:
        a["copy"] = bool(r.rand() < 0.5)
    e = r.randint(0, 4)
    if e:
        a["t_new"] = r.permutation(np.r_[a["t_new"], t[0] - r.rand(2), t[-1] + r.rand(2)])
        a["bounds_error"] = False
        if e == 1:
            a["fill_value"] = pick(r, 1.5, (0.5, 2.5), "extrapolate")
            a["fill_unc"] = pick(r, 0.5, (0.25, 0.75), "extrapolate")
        elif e == 2:
            a["fill_value"], a["fill_unc"] = "extrapolate", "extrapolate"
            if r.rand() < 0.5:
                a["returnC"] = True
    elif r.rand() < 0.4:
        a["returnC"] = True
    if a.get("returnC") and a.get("kind", "linear") != "linear":
        del a["returnC"]
    if r.rand() < 0.4:
        p = r.permutation(n)
        a["t"], a["y"], a["uy"] = t[p], a["y"][p], a["uy"][p]
        a["assume_sorted"] = False
    return a


@fn("make_equidistant", "uncertainty.interpolate", "t,y,uy,dt,kind",
    ("misc.tools", "misc", "uncertainty", ""), stds=lambda o, a: [("interpolation uncertainty", o[2])])
def _(r):
    n = r.randint(2, 10)
    t = grid(r, n)
    a = dict(t=t, y=signal(r, n), uy=unc(r, n))
    w = (t[-1] - t[0])
    a["dt"] = w / r.uniform(0.7, 12)
    k = pick(r, None, "linear", "previous", "next", "nearest")
    if k:
        a["kind"] = k
    return a


# ------------------------------------------------------------------ Monte Carlo
def low(r, a):
    if r.rand() < 0.3:
        a["blow"] = r.rand(r.randint(1, 4))
        if r.rand() < 0.5:
            a["alow"] = stable(r, 1)


def mc_covs(o, a):
    return [] if a.get("return_samples") else [("Monte Carlo covariance", o[1])]


@fn("MC", PM, "x,Ux,b,a,Uab,runs,blow,alow,return_samples,shift,verbose", UP, random=True, cost=2,
    covs=mc_covs)
def _(r):
    n, p, q = r.randint(2, 10), r.randint(0, 3), r.randint(1, 4)
    a = dict(x=signal(r, n), Ux=pick(r, 0.3, unc(r, n), covm(r, n, float)), b=r.randn(q), a=stable(r, p),
             Uab=covm(r, p + q, float, CK[:6]) * 1e-4, runs=r.randint(3, 12))
    low(r, a)
    if r.rand() < 0.3:
        a["return_samples"] = True
    if r.rand() < 0.4:
        a["shift"] = r.randint(-3, 4)
    if r.rand() < 0.5:
        a["verbose"] = bool(r.rand() < 0.5)
    return a


@fn("SMC", PM, "x,noise_std,b,a,Uab,runs,Perc,blow,alow,shift,return_samples,phi,theta,Delta", UP,
    random=True, cost=2, stds=lambda o, a: [] if a.get("return_samples") else [
        ("Monte Carlo uncertainty", o[1])])
def _(r):
    n, p, q = r.randint(2, 10), r.randint(0, 3), r.randint(1, 4)
    a = dict(x=signal(r, n), noise_std=0.3, b=r.randn(q), a=stable(r, p))
    if r.rand() < 0.7:
        a["Uab"] = covm(r, p + q, float, CK[:6]) * 1e-4
    a["runs"] = r.randint(3, 12)
    if r.rand() < 0.4:
        a["Perc"] = [0.1, 0.5, 0.9]
    low(r, a)
    if r.rand() < 0.4:
        a["shift"] = r.randint(-3, 4)
    if r.rand() < 0.2 and "Perc" not in a:
        a["return_samples"] = True
    if r.rand() < 0.4:
        a["phi"] = pick(r, 0.3, np.array([0.3, 0.1]))
        a["theta"] = pick(r, 0.2, np.array([0.3, 0.1]))
    if r.rand() < 0.3:
        a["Delta"] = 0.2
    return a


# ------------------------------------------------------------------ model estimation
def fitdata(r, extra=2):
    N = r.randint(0, 5)
    M = N // 2 + 1 + r.randint(extra, 8)
    f = np.sort((np.arange(M) + r.uniform(0.1, 0.9, M)) / M * 0.5)
    H = np.exp(r.uniform(-0.7, 0.7, M)) * np.exp(1j * r.uniform(-3, 3, M))
    Fs = pick(r, 1.0, 2.0, 1000.0)
    return dict(H=H, N=N, tau=pick(r, 0, 1, 3), f=f * Fs, Fs=Fs)


@fn("LSFIR", FF, "H,N,tau,f,Fs,Wt", ("identification.fit_filter", "identification", "model_estimation", ""))
def _(r):
    a = fitdata(r)
    M = len(a["f"])
    if r.rand() < 0.5:
        a["Wt"] = pick(r, 0.3 + r.rand(M), np.diag(0.3 + r.rand(M)))
    return a


@fn("invLSFIR", FF, "H,N,tau,f,Fs,Wt", ("deconvolution.fit_filter:LSFIR", "deconvolution:LSFIR", "model_estimation", ""))
def _(r):
    a = fitdata(r)
    M = len(a["f"])
    if r.rand() < 0.5:
        a["Wt"] = pick(r, 0.3 + r.rand(M), np.diag(0.3 + r.rand(M)))
    return a


def small_unc(r, a):
    M = len(a["f"])
    return covm(r, 2 * M, float, ("full", "diag", "ident", "rank1", "ar")) * 1e-6


@fn("invLSFIR_unc", FF, "H,UH,N,tau,f,Fs,wt,verbose,trunc_svd_tol",
    ("deconvolution.fit_filter:LSFIR_unc", "deconvolution:LSFIR_unc", "model_estimation", ":LSFIR_unc", ""),
    random=True, cost=2, covs=lambda o, a: [("filter coefficient covariance", o[1])])
def _(r):
    a = fitdata(r)
    a["UH"] = small_unc(r, a)
    if r.rand() < 0.4:
        a["wt"] = 0.3 + r.rand(2 * len(a["f"]))
    if r.rand() < 0.6:
        a["verbose"] = bool(r.rand() < 0.5)
    if r.rand() < 0.3:
        a["trunc_svd_tol"] = pick(r, 1e-3, 0.7, 1.2, 2.0)
    return a


@fn("invLSFIR_uncMC", FF, "H,UH,N,tau,f,Fs,verbose",
    ("deconvolution.fit_filter:LSFIR_uncMC", "deconvolution:LSFIR_uncMC", "model_estimation", ":LSFIR_uncMC", ""),
    random=True, cost=3, covs=lambda o, a: [("filter coefficient covariance", o[1])])
def _(r):
    a = fitdata(r)
    a["UH"] = small_unc(r, a)
    if r.rand() < 0.6:
        a["verbose"] = bool(r.rand() < 0.5)
    return a


def iirdata(r):
    d = fitdata(r, 6)
    M = len(d["f"])
    om = 2 * np.pi * d["f"] / d["Fs"]
    if r.rand() < 0.6:
        z = np.exp(-1j * om)
        d["H"] = (1 + 0.4 * z) / (1 - 0.5 * z + 0.2 * z ** 2) + 0.02 * (r.randn(M) + 1j * r.randn(M))
        if r.rand() < 0.4:  # poles (zeros for the inverse) outside of the unit circle
            p = 1.3 * np.exp(1j * r.uniform(0.2, 2.9))
            g = (1 - p * z) * (1 - np.conj(p) * z)
            d["H"] = pick(r, d["H"] / g, d["H"] * g)
    return dict(Hvals=d["H"], Nb=r.randint(1, 3), Na=r.randint(1, 3), f=d["f"], Fs=d["Fs"], tau=d["tau"])


@fn("LSIIR", FF, "Hvals,Nb,Na,f,Fs,tau,justFit", ("identification.fit_filter", "identification", "model_estimation", ""))
def _(r):
    a = iirdata(r)
    if r.rand() < 0.3:
        del a["tau"]
    if r.rand() < 0.5:
        a["justFit"] = bool(r.rand() < 0.5)
    return a


@fn("invLSIIR", FF, "Hvals,Nb,Na,f,Fs,tau,justFit,verbose",
    ("deconvolution.fit_filter:LSIIR", "deconvolution:LSIIR", "model_estimation", ""))
def _(r):
    a = iirdata(r)
    if r.rand() < 0.5:
        a["justFit"] = bool(r.rand() < 0.5)
    if r.rand() < 0.6:
        a["verbose"] = bool(r.rand() < 0.5)
    return a


@fn("invLSIIR_unc", FF, "H,UH,Nb,Na,f,Fs,tau",
    ("deconvolution.fit_filter:LSIIR_unc", "deconvolution:LSIIR_unc", "model_estimation", ":LSIIR_unc", ""),
    random=True, cost=3, covs=lambda o, a: [("filter coefficient covariance", o[3])])
def _(r):
    d = iirdata(r)
    M = len(d["f"])
    z = np.exp(-2j * np.pi * d["f"] / d["Fs"])
    H = (1 - 0.5 * z + 0.2 * z ** 2) / (1 + 0.4 * z)
    a = dict(H=H, UH=np.eye(2 * M) * 1e-8, Nb=1, Na=1, f=d["f"], Fs=d["Fs"])
    if r.rand() < 0.6:
        a["tau"] = pick(r, 0, 1)
    return a


@fn("fit_som", "model_estimation.fit_transfer", "f,H,UH,weighting,MCruns,scaling",
    ("identification.fit_transfer:fit_sos", "identification:fit_sos", ":fit_sos", "model_estimation", ""),
    random=True, cost=2, covs=lambda o, a: [("parameter covariance", o[1])] if "UH" in a and a["UH"] is not None else [])
def _(r):
    f, H = sos_resp(r)
    M = len(f)
    a = dict(f=f, H=H)
    if r.rand() < 0.8:
        a["UH"] = pick(r, np.full(2 * M, 1e-4) ** 2, covm(r, 2 * M, float, ("full", "diag", "ident")) * 1e-8)
        a["MCruns"] = r.randint(40, 80)
        if r.rand() < 0.5:
            a["weighting"] = pick(r, 0.3 + r.rand(2 * M), "diag", "cov")
            if isinstance(a["weighting"], str) and a["weighting"] == "cov":
                a["UH"] = np.diag(0.5 + r.rand(2 * M)) * 1e-8
    elif r.rand() < 0.5:
        a["weighting"] = 0.3 + r.rand(2 * M)
    if r.rand() < 0.5:
        a["scaling"] = pick(r, 1e-3, 1.0, 1e-4)
    return a


# ------------------------------------------------------------------ misc
@fn("sos_FreqResp", "misc.SecondOrderSystem", "S,d,f0,freqs", ("misc", ""))
def _(r):
    k = r.randint(1, 4)
    p = [0.5 + r.rand(), 0.01 + r.rand(), 10 + 50 * r.rand()]
    if k > 1 and r.rand() < 0.5:
        p = [0.5 + r.rand(k), 0.01 + r.rand(k), 10 + 50 * r.rand(k)]
    return dict(S=p[0], d=p[1], f0=p[2], freqs=np.sort(100 * r.rand(r.randint(1, 9))))


@fn("sos_phys2filter", "misc.SecondOrderSystem", "S,d,f0", ("misc", ""))
def _(r):
    k = r.randint(2, 4)
    if r.rand() < 0.5:
        return dict(S=0.5 + r.rand(), d=0.01 + r.rand(), f0=10 + 50 * r.rand())
    return dict(S=0.5 + r.rand(k), d=0.01 + r.rand(k), f0=10 + 50 * r.rand(k))


def sosu(r):
    return dict(S=0.5 + r.rand(), d=0.05 + r.rand(), f0=10 + 50 * r.rand(), uS=0.01, ud=0.001, uf0=0.1,
                f=np.sort(100 * r.rand(r.randint(2, 7))), runs=r.randint(30, 90))


@fn("sos_realimag", "misc.SecondOrderSystem", "S,d,f0,uS,ud,uf0,f,runs", ("misc", ""), random=True,
    covs=lambda o, a: [("real/imaginary covariance", o[1])])
def _(r):
    return sosu(r)


@fn("sos_absphase", "misc.SecondOrderSystem", "S,d,f0,uS,ud,uf0,f,runs", ("misc", ""), random=True,
    covs=lambda o, a: [("amplitude/phase covariance", o[1])])
def _(r):
    return sosu(r)


@fn("db", "misc.filterstuff", "vals", ("misc", ""))
def _(r):
    return dict(vals=r.rand(r.randint(1, 9)) + 0.1 + 1j * (r.rand() < 0.5))


@fn("ua", "misc.filterstuff", "vals")
def _(r):
    n = r.randint(1, 9)
    return dict(vals=np.exp(1j * np.cumsum(r.uniform(-2, 2, n))))


@fn("grpdelay", "misc.filterstuff", "b,a,Fs,nfft", ("misc", ""))
def _(r):
    a = dict(b=r.randn(r.randint(1, 6)), a=stable(r, r.randint(0, 4)), Fs=pick(r, 1.0, 1000.0))
    if r.rand() < 0.6:
        a["nfft"] = pick(r, 16, 64, 200)
    return a


@fn("mapinside", "misc.filterstuff", "a", ("misc", ""))
def _(r):
    return dict(a=np.real(np.poly(r.uniform(-3, 3, r.randint(1, 5)))))


@fn("kaiser_lowpass", "misc.filterstuff", "L,fcut,Fs,beta", ("misc", ""))
def _(r):
    a = dict(L=r.randint(2, 30), fcut=r.uniform(0.1, 0.4) * 100, Fs=100)
    if r.rand() < 0.6:
        a["beta"] = pick(r, 8.0, 5.0, 0.5)
    return a


@fn("isstable", "misc.filterstuff", "b,a,ftype", ("misc", ""))
def _(r):
    p = r.randint(1, 5)
    t = pick(r, None, "digital", "analog")
    a = dict(b=r.randn(p), a=np.real(np.poly(r.uniform(-2, 1.5, p))))
    if t:
        a["ftype"] = t
    return a


@fn("savitzky_golay", "misc.filterstuff", "y,window_size,order,deriv,delta", ("misc", ""))
def _(r):
    w = 2 * r.randint(1, 5) + 1
    o = r.randint(1, min(4, w - 1)) if w > 2 else 1
    a = dict(y=signal(r, w + r.randint(3, 15)), window_size=w, order=o)
    if r.rand() < 0.5:
        a["deriv"] = r.randint(0, o + 1)
        a["delta"] = pick(r, 1.0, 0.1)
    return a


@fn("impinvar", "misc.impinvar", "b_in,a_in,fs,tol", ("misc", ""))
def _(r):
    p = r.randint(1, 4)
    roots = -np.sort(r.uniform(0.5, 1.2, p) + np.arange(p)) * 3
    a = dict(b_in=r.randn(r.randint(1, p + 1)), a_in=np.real(np.poly(roots)))
    if r.rand() < 0.8:
        a["fs"] = pick(r, 1, 10.0, 100)
    if r.rand() < 0.3:
        a["tol"] = 1e-5
    return a


@fn("get_alpha", "misc.noise", "color_value")
def _(r):
    return dict(color_value=pick(r, "white", "pink", "brown", "red", "blue", "violet", 0.7, 2, 0))


@fn("white_gaussian", "misc.noise", "N,mean,std", random=True)
def _(r):
    a = dict(N=r.randint(1, 40))
    if r.rand() < 0.6:
        a["mean"], a["std"] = 2.0, 0.5
    return a


@fn("power_law_noise", "misc.noise", "N,w,color_value,mean,std", random=True)
def _(r):
    a = dict(N=r.randint(2, 40))
    if r.rand() < 0.4:
        a = dict(w=r.randn(r.randint(2, 40)))
    if r.rand() < 0.7:
        a["color_value"] = pick(r, "white", "pink", "brown", "blue", 0.5)
    if r.rand() < 0.5:
        a["mean"], a["std"] = 1.0, 2.0
    return a


@fn("power_law_acf", "misc.noise", "N,color_value,std")
def _(r):
    a = dict(N=r.randint(2, 30))
    if r.rand() < 0.7:
        a["color_value"] = pick(r, "white", "pink", "brown", "blue", 0.5)
        a["std"] = pick(r, 1.0, 0.3)
    return a


@fn("ARMA", "misc.noise", "length,phi,theta,std", ("misc", ""), random=True)
def _(r):
    a = dict(length=r.randint(1, 40))
    if r.rand() < 0.8:
        a["phi"] = pick(r, 0.3, np.array([0.4, -0.2]))
        a["theta"] = pick(r, 0.2, np.array([0.3, 0.1, 0.4]))
        a["std"] = pick(r, 1.0, 0.1)
    return a


def taxis(r):
    return np.arange(r.randint(3, 40)) * pick(r, 1.0, 0.01) + pick(r, 0.0, -0.3, 2.0)


def noisy(name, sig, f, paths=("misc", ""), kinds=(False, True)):
    for random in kinds:
        def args(r, random=random):
            a = f(r)
            if random:
                a["noise"] = 0.3
            elif r.rand() < 0.3:
                a["noise"] = 0.0
            return a
        fn(name + ("/noise" if random else ""), "misc.testsignals", sig, paths, random=random or kinds == (True,))(args)


def gauss(r):
    t = taxis(r)
    return dict(time=t, t0=r.uniform(t[0], t[-1]), m0=pick(r, 1.0, -3.0), sigma=(t[-1] - t[0]) / 7)


noisy("shocklikeGaussian", "time,t0,m0,sigma,noise", gauss)
noisy("GaussianPulse", "time,t0,m0,sigma,noise", gauss)


def _rect(r):
    t = taxis(r)
    a = dict(time=t, t0=t[1], t1=t[-2] if len(t) > 3 else t[-1])
    if r.rand() < 0.6:
        a["height"] = pick(r, 2, 0.5, -1.5)
    return a


def _square(r):
    a = dict(time=taxis(r), height=pick(r, 1, 2.5))
    if r.rand() < 0.6:
        a["numpulse"] = r.randint(1, 6)
    return a


def _sine(r):
    a = dict(time=taxis(r))
    if r.rand() < 0.7:
        a["amp"], a["freq"] = 2.0, 1.3
    return a


def _msine(r):
    k = r.randint(1, 5)
    return dict(time=taxis(r), amps=r.rand(k), freqs=1 + 5 * r.rand(k))


noisy("rect", "time,t0,t1,height,noise", _rect)
noisy("squarepulse", "time,height,numpulse,noise", _square)
noisy("sine", "time,amp,freq,noise", _sine)
noisy("multi_sine", "time,amps,freqs,noise", _msine, (), (True,))  # always draws


@fn("shift_uncertainty", "misc.tools", "x,ux,shift", covs=lambda o, a: [
    ("shifted covariance", o[1])] if np.ndim(o[1]) == 2 else [])
def _(r):
    n = r.randint(1, 12)
    return dict(x=signal(r, n), ux=pick(r, 0.3, unc(r, n), covm(r, n)), shift=r.randint(-9, 10))


@fn("trimOrPad", "misc.tools", "array,length,mode")
def _(r):
    a = dict(array=r.randn(r.randint(1, 10)), length=r.randint(1, 15))
    if r.rand() < 0.5:
        a["mode"] = pick(r, "constant", "edge", "wrap")
    return a


@fn("print_vec", "misc.tools", "vector,prec,retS,vertical", ("misc", ""))
def _(r):
    a = dict(vector=r.randn(r.randint(1, 6)), prec=r.randint(1, 7), retS=True)
    if r.rand() < 0.5:
        a["vertical"] = bool(r.rand() < 0.5)
    return a


@fn("print_mat", "misc.tools", "matrix,prec,vertical,retS", ("misc", ""))
def _(r):
    return dict(matrix=r.randn(r.randint(1, 4), r.randint(1, 4)), prec=r.randint(1, 7),
                vertical=bool(r.rand() < 0.5), retS=True)


@fn("make_semiposdef", "misc.tools", "matrix,maxiter,tol,verbose", ("misc", ""),
    covs=lambda o, a: [("positive definite matrix", o)])
def _(r):
    n = r.randint(1, 8)
    A = r.randn(n, n)
    a = dict(matrix=pick(r, A + A.T, A.dot(A.T), A, np.diag(r.randn(n))))
    if r.rand() < 0.4:
        a["maxiter"] = r.randint(5, 20)
    if r.rand() < 0.3:
        a["tol"] = pick(r, 1e-9, 1e-4, 0.5)
    if r.rand() < 0.5:
        a["verbose"] = bool(r.rand() < 0.5)
    return a


@fn("FreqResp2RealImag", "misc.tools", "Abs,Phase,Unc,MCruns", ("misc", ""), random=True, cost=1,
    covs=lambda o, a: [("real/imaginary covariance", o[2])])
def _(r):
    M = r.randint(1, 5)
    A, P, _ = polar_cart(r, M)
    return dict(Abs=A, Phase=P, Unc=pick(r, (0.01 + 0.01 * r.rand(2 * M)) ** 2,
                                         covm(r, 2 * M, float, ("full", "diag", "ident")) * 1e-4),
                MCruns=pick(r, 50, 200, 1e2))
