"""C30: import paths and deprecated aliases."""
import importlib
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, registry as R
from ..core import Violation, arr, expect, law

RULE = "an alias called with at least one optional argument or by keywords, or a documented name; distinct by generated case"
TECHNIQUE = "property-based testing (Hypothesis): differential testing of every alias against its successor over random valid calls (positional, mixed and keyword form, equal seeds), enumeration of the documented names"

PAIRS = [(n, p) for n in R.names(max_cost=2) for p in R.FUNCS[n].paths]
SLOW = [(n, p) for n in R.names(max_cost=9) if R.FUNCS[n].cost > 2 for p in R.FUNCS[n].paths]


def find(path, name):
    mod, _, nm = path.partition(":")
    nm = nm or name.split("/")[0]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return getattr(importlib.import_module(mod), nm)
    except (ImportError, AttributeError) as e:
        raise Violation(f"{nm} cannot be imported from {mod}: {e}")


def check(name, path, s, npos):
    f = R.FUNCS[name]
    a = f.args(np.random.RandomState(s))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        np.random.seed(s)
        want = R.copy(R.call(find(f.module, name), f.sig, R.copy(a), 0))
        np.random.seed(s)
        got = R.call(find(path, name), f.sig, a, npos)
    expect(R.same(want, got, 1e-12), f"{path} gives another result than {f.module}.{name}")


def case(pairs):
    return gen.fd(i=st.integers(0, len(pairs) - 1), s=gen.seeds(), npos=st.sampled_from([99, 0, 2, 4]))


@law("C30", case(PAIRS), quick=2200, classify=lambda c: [PAIRS[c["i"]][1].partition(":")[0]])
def aliases_return_what_the_functions_return(c):
    """package level names and deprecated wrappers against the function itself, called by
    keywords"""
    name, path = PAIRS[c["i"]]
    check(name, path, c["s"], c["npos"])


DEPRECATED = [i for i, (n, p) in enumerate(PAIRS)
              if "deconvolution" in p or "identification" in p or p.endswith("interpolation")
              or p == "PyDynamic.misc.tools" and n == "make_equidistant" or ":" in p]


@law("C30", gen.fd(k=st.integers(0, len(DEPRECATED) - 1), s=gen.seeds(), npos=st.sampled_from([99, 0, 2, 4])),
     quick=700, classify=lambda c: [PAIRS[DEPRECATED[c["k"]]][1]])
def deprecated_functions_return_what_the_successors_return(c):
    """as above with weight on the deprecated wrappers"""
    name, path = PAIRS[DEPRECATED[c["k"]]]
    check(name, path, c["s"], c["npos"])


@law("C30", case(SLOW), quick=8, thorough=80, classify=lambda c: [SLOW[c["i"]][1]])
def slow_aliases_return_what_the_functions_return(c):
    """as above for the fits with a fixed large number of Monte Carlo runs"""
    name, path = SLOW[c["i"]]
    check(name, path, c["s"], c["npos"])


DOC = {
    "PyDynamic": "invLSFIR invLSIIR invLSFIR_unc invLSFIR_uncMC invLSIIR_unc LSFIR LSIIR LSFIR_unc LSFIR_uncMC "
                 "LSIIR_unc fit_som fit_sos FreqResp2RealImag GUM_DFT GUM_iDFT DFT_deconv DFT_multiply "
                 "DFT2AmpPhase AmpPhase2DFT AmpPhase2Time Time2AmpPhase FIRuncFilter IIRuncFilter MC SMC UMC "
                 "UMC_generic interp1d_unc db grpdelay mapinside isstable kaiser_lowpass savitzky_golay impinvar "
                 "sos_absphase sos_realimag sos_FreqResp sos_phys2filter shocklikeGaussian GaussianPulse "
                 "squarepulse rect corr_noise sine ARMA print_vec print_mat make_semiposdef make_equidistant "
                 "uncertainty misc deconvolution identification model_estimation __version__",
    "PyDynamic.uncertainty": "GUM_DFT GUM_iDFT DFT_deconv DFT_multiply DFT2AmpPhase AmpPhase2DFT AmpPhase2Time "
                             "Time2AmpPhase FIRuncFilter IIRuncFilter MC SMC UMC UMC_generic interp1d_unc "
                             "make_equidistant propagate_DFT propagate_filter propagate_MonteCarlo interpolate",
    "PyDynamic.uncertainty.propagate_DFT": "GUM_DFT GUM_iDFT GUM_DFTfreq DFT_transferfunction DFT_deconv "
                                           "DFT_multiply AmpPhase2DFT DFT2AmpPhase AmpPhase2Time Time2AmpPhase "
                                           "Time2AmpPhase_multi",
    "PyDynamic.uncertainty.propagate_filter": "FIRuncFilter IIRuncFilter",
    "PyDynamic.uncertainty.propagate_MonteCarlo": "MC SMC UMC UMC_generic",
    "PyDynamic.uncertainty.propagate_convolution": "convolve_unc",
    "PyDynamic.uncertainty.interpolate": "interp1d_unc make_equidistant",
    "PyDynamic.uncertainty.interpolation": "interp1d_unc",
    "PyDynamic.model_estimation": "invLSFIR invLSIIR invLSFIR_unc invLSFIR_uncMC invLSIIR_unc LSFIR LSIIR fit_som",
    "PyDynamic.model_estimation.fit_filter": "LSFIR LSIIR invLSFIR invLSIIR invLSFIR_unc invLSFIR_uncMC invLSIIR_unc",
    "PyDynamic.model_estimation.fit_transfer": "fit_som",
    "PyDynamic.deconvolution": "LSFIR LSIIR LSFIR_unc LSFIR_uncMC LSIIR_unc",
    "PyDynamic.deconvolution.fit_filter": "LSFIR LSIIR LSFIR_unc LSFIR_uncMC LSIIR_unc",
    "PyDynamic.identification": "LSFIR LSIIR fit_sos",
    "PyDynamic.identification.fit_filter": "LSFIR LSIIR",
    "PyDynamic.identification.fit_transfer": "fit_sos",
    "PyDynamic.misc": "db grpdelay mapinside isstable kaiser_lowpass savitzky_golay impinvar sos_absphase "
                      "sos_realimag sos_FreqResp sos_phys2filter shocklikeGaussian GaussianPulse squarepulse "
                      "rect corr_noise sine print_vec print_mat make_semiposdef make_equidistant "
                      "FreqResp2RealImag ARMA",
    "PyDynamic.misc.SecondOrderSystem": "sos_FreqResp sos_phys2filter sos_absphase sos_realimag",
    "PyDynamic.misc.filterstuff": "db ua grpdelay mapinside kaiser_lowpass isstable savitzky_golay",
    "PyDynamic.misc.testsignals": "shocklikeGaussian GaussianPulse rect squarepulse corr_noise sine multi_sine",
    "PyDynamic.misc.noise": "get_alpha white_gaussian power_law_noise power_law_acf ARMA",
    "PyDynamic.misc.tools": "print_mat print_vec make_semiposdef FreqResp2RealImag make_equidistant trimOrPad "
                            "progress_bar shift_uncertainty",
    "PyDynamic.signals": "Signal",
}
MODULES = sorted(DOC)


@law("C30", gen.fd(i=st.integers(0, len(MODULES) - 1), star=st.booleans(), first=st.integers(0, 40)), quick=320,
     classify=lambda c: [MODULES[c["i"]]])
def documented_names_can_be_imported(c):
    """from-import of every documented name of a module; star import offers everything
    that the module declares public"""
    mod = MODULES[c["i"]]
    names = DOC[mod].split()
    k = c["first"] % len(names)
    space = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            for name in names[k:] + names[:k]:
                exec(f"from {mod} import {name} as it", space)
                it = space["it"]
                if name.startswith("__"):
                    expect(isinstance(it, str), name)
                elif name in ("uncertainty", "misc", "deconvolution", "identification", "model_estimation",
                              "interpolate") or name.startswith("propagate"):
                    expect(hasattr(it, "__path__") or hasattr(it, "__file__"), f"{name} is no module")
                else:
                    expect(callable(it), f"{mod}.{name} is not callable")
            if c["star"]:
                exec(f"from {mod} import *", space)
        except (ImportError, AttributeError) as e:
            raise Violation(f"{type(e).__name__}: {e}")
    if c["star"]:
        for k in getattr(importlib.import_module(mod), "__all__", []):
            expect(k in space, f"from {mod} import * lacks {k}")


WARNING_MODULES = {"PyDynamic.identification.fit_filter": DeprecationWarning,
                   "PyDynamic.identification.fit_transfer": DeprecationWarning,
                   "PyDynamic.deconvolution.fit_filter": DeprecationWarning,
                   "PyDynamic.uncertainty.interpolation": PendingDeprecationWarning}


@law("C30", gen.fd(k=st.integers(0, len(WARNING_MODULES)), s=gen.seeds()), quick=40)
def deprecation_is_announced(c):
    """importing a deprecated module and calling a deprecated function warns"""
    mods = sorted(WARNING_MODULES)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if c["k"] == len(mods):
            f = R.FUNCS["make_equidistant"]
            R.call(find("PyDynamic.misc.tools", "make_equidistant"), f.sig, f.args(np.random.RandomState(c["s"])))
            kinds, what = (PendingDeprecationWarning, DeprecationWarning), "misc.tools.make_equidistant"
        else:
            what = mods[c["k"]]
            kinds = (PendingDeprecationWarning, DeprecationWarning)
            importlib.reload(importlib.import_module(what))
            warnings.simplefilter("always")
            fs = [(n, p) for n, p in PAIRS if p.partition(":")[0] == what]
            n, p = fs[c["s"] % len(fs)]
            R.call(find(p, n), R.FUNCS[n].sig, R.FUNCS[n].args(np.random.RandomState(c["s"])))
    expect(any(issubclass(x.category, kinds) for x in w), f"{what} does not announce its deprecation")


@law("C30", gen.fd(s=gen.seeds(), w=st.sampled_from([0.5, 1.0, 2.5]), N=st.integers(1, 40)), quick=60)
def class_aliases_behave_equally(c):
    """corr_noise from package level, misc and its module"""
    out = []
    for p in ("PyDynamic", "PyDynamic.misc", "PyDynamic.misc.testsignals"):
        k = find(p, "corr_noise")(c["w"], 0.3, seed=c["s"])
        out.append((arr(k.calc_noise(c["N"])), arr(k.calc_autocov(c["N"] % 6 + 5)) if hasattr(k, "calc_autocov") else 0))
    for o in out[1:]:
        expect(R.same(out[0], o), "corr_noise differs between its import paths")
