"""Rewrites the "fixed" entries of known_findings.json from the fix: commits of /repo."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [("FIRuncFilter: do not ignore", "C29"), ("convolve_unc: do not ignore", "C29"), ("SMC: do not ignore", "C29"),
        ("GUM_DFT: do not ignore", "C29"), ("GUM_iDFT: do not ignore", "C29"), ("Time2AmpPhase_multi: do not", "C29"),
        ("DFT_multiply: do not ignore", "C29"), ("invLSFIR_unc: do not ignore", "C29"), ("fit_som: do not ignore", "C29"),
        ("sos_FreqResp", "C29"), ("MC: take a zero", "C29"),
        ("FIRuncFilter, convolve_unc", "C01"), ("FIRuncFilter", "C01"), ("IIRuncFilter", "C13"), ("ARMA", "C25"),
        ("corr_noise", "C25"), ("UMC_generic", "C16"), ("UMC:", "C17"), ("SMC", "C15"), ("MC:", "C14"),
        ("GUM_DFT", "C04"), ("propagate_DFT", "C04"), ("GUM_iDFT", "C05"), ("AmpPhase2DFT", "C06"),
        ("AmpPhase2Time", "C07"), ("Time2AmpPhase", "C07"), ("DFT_deconv", "C08"), ("DFT_multiply", "C08"),
        ("impinvar", "C24"), ("interp1d_unc: fill_value", "C11"), ("interp1d_unc: accept an integer", "C11"),
        ("interp1d_unc: check", "C31"), ("interp1d_unc", "C10"), ("export", "C30"), ("isstable", "C23"),
        ("kaiser", "C23"), ("grpdelay", "C23"), ("FreqResp2RealImag", "C27"), ("make_semiposdef", "C27"),
        ("multi_sine", "C26"), ("squarepulse", "C26"), ("Signal: reject", "C31"), ("Signal", "C28"),
        ("keep squares of narrow", "C29"), ("invLSFIR_unc", "C19"), ("LSIIR", "C20"), ("LSFIR", "C18"), ("fit_som", "C21")]
path = os.path.join(HERE, "known_findings.json")
d = json.load(open(path))
keep = [f for f in d["findings"] if f["status"] == "open"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE,
                     universal_newlines=True).stdout
for l in log.splitlines():
    h, _, s = l.partition(" ")
    if not s.startswith("fix: ") or len(h) == 0:
        continue
    s = s[5:]
    pid = next((p for k, p in PROP if s.startswith(k)), None)
    if pid is None:
        if sys.argv[1:] == ["-v"]:
            print("no property:", l)
        continue
    keep.append(dict(id="fixed-" + h, property=pid, status="fixed", commit=h, what=s,
                     line=f"fixed: property={pid} {h} {s}"))
d["findings"] = keep
json.dump(d, open(path, "w"), indent=1)
print(len(keep))
