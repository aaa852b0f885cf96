#!/usr/bin/env python3
"""Plant and judge a change:  plant.py SPEC.py [ID...] [--no-tests] [--no-check]

SPEC.py defines BUGS, a list of dicts: id, property, file, edits [(old, new)],
needs, breaks, demo (Python source: exits nonzero when the property is broken).
Works on a copy of /repo under /tmp, which it removes again.  Writes
/verif/seeded/<id>/ when the change applies; prints what the demonstration, the
stable tests and the property's check say.  Not run by any registered check.
"""
import json, os, runpy, shutil, subprocess, sys, time

BASE = "39c5a85"
PY = "/opt/venv/bin/python"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
RUN = os.path.join(os.path.dirname(SEEDED), "run.py")
DEMO_SH = """#!/bin/sh
# cwd: the repository; exit 0 when the property holds, nonzero when it is broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py" >/dev/null
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


RELATED = {  # tests which can notice a change of the module
    "uncertainty/interpolate.py": "interpolate interpolation deprecated_make_equidistant examples",
    "uncertainty/interpolation.py": "interpolate interpolation deprecated_make_equidistant examples",
    "uncertainty/propagate_DFT.py": "DFT examples",
    "uncertainty/propagate_MonteCarlo.py": "propagate_MonteCarlo propagate_filter propagate_convolution signals examples",
    "uncertainty/propagate_convolution.py": "propagate_convolution examples",
    "uncertainty/propagate_filter.py": "propagate_filter propagate_convolution propagate_MonteCarlo signals examples",
    "model_estimation/fit_filter.py": "identification examples DFT signals propagate_filter",
    "model_estimation/fit_transfer.py": "identification examples second_order_systems",
    "deconvolution/fit_filter.py": "identification examples", "identification/fit_filter.py": "identification examples",
    "identification/fit_transfer.py": "identification examples", "signals.py": "signals examples",
    "misc/SecondOrderSystem.py": "second_order_systems identification examples", "misc/impinvar.py": "examples second_order_systems",
    "misc/noise.py": "misc_noise propagate_MonteCarlo examples propagate_filter",
}


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    flags = set(a for a in sys.argv[1:] if a.startswith("--"))
    spec = runpy.run_path(args[0])
    want = args[1:]
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        try:
            one(b, flags)
        except Exception as e:
            print(b["id"], "FAILED", type(e).__name__, e, flush=True)


def one(b, flags):
    bid = b["id"]
    w = "/tmp/w_" + bid
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w)
    out = []
    try:
        edits = b["edits"]
        files = sorted(set(e[0] for e in edits))
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline="").read()
            n = s.count(old)
            if n != 1:
                raise RuntimeError("edit matches %d times: %r" % (n, old))
            open(p, "w", newline="").write(s.replace(old, new))
        mine = set(sh("git -C /repo rev-list %s..HEAD" % BASE).stdout.split())
        diff = sh("git diff", cwd=w).stdout
        # lines removed by the patch must come from the base
        bad = 0
        for f in files:
            d = sh("git diff -U0 -- %s" % f, cwd=w).stdout
            for line in d.splitlines():
                if line.startswith("@@"):
                    a = line.split()[1][1:]
                    start, _, cnt = a.partition(",")
                    cnt = int(cnt or 1)
                    if cnt == 0:
                        continue
                    bl = sh("git blame -l -s -L %s,+%d HEAD -- %s" % (start, cnt, f), cwd=w).stdout
                    bad += sum(1 for x in bl.splitlines() if x.split()[0].lstrip("^") in mine)
        if bad:
            out.append("LINES-NOT-ORIGINAL(%d)" % bad)
        d = os.path.join(SEEDED, bid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].strip() + "\n")
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh("sh %s/demo.sh" % d, cwd="/repo")
        r1 = sh("sh %s/demo.sh" % d, cwd=w)
        out.append("demo %d/%d" % (r0.returncode, r1.returncode))
        if r0.returncode:
            print(r0.stdout[-600:])
        if "--no-tests" not in flags:
            t = time.time()
            tests = "."
            if "--related" in flags and all(f[len("PyDynamic/"):] in RELATED for f in files):
                tests = " ".join(sorted({"test/test_%s.py" % k for f in files
                                         for k in RELATED[f[len("PyDynamic/"):]].split()}))
            cmd = ("export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CI=1 OMP_NUM_THREADS=1 "
                   "OPENBLAS_NUM_THREADS=1 PYTHONPATH=%s HYPOTHESIS_STORAGE_DIRECTORY=%s/.hyp; "
                   "ulimit -v 6000000; timeout 1200 %s -m pytest -q -n 8 -p no:cacheprovider --randomly-seed=1 "
                   "--randomly-dont-reorganize --timeout=300 --continue-on-collection-errors "
                   "-o junit_family=xunit2 --junitxml=%s/junit.xml %s >/dev/null 2>&1; "
                   "/usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml"
                   % (w, w, PY, w, tests, w, w))
            sh(cmd, cwd=w)
            res = json.load(open(w + "/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            if tests != ".":
                stems = tuple(x[5:-3] for x in tests.split())
                stable = [x for x in stable if any(k in x.replace("/", ".") for k in stems)]
            out.append("%d" % len(stable))
            missing = [x for x in stable if x not in set(res["passed"])]
            out.append("tests %s (%.0f s)" % ("pass" if not missing else "FAIL %d: %s" % (
                len(missing), [m.split("::")[-1] for m in missing[:3]]), time.time() - t))
        if "--no-check" not in flags:
            for prop in [b["property"]] + b.get("also", []):
                env = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick",
                           VERIF_EVIDENCE="/tmp/ev_scratch")
                t = time.time()
                r = sh("python3 %s %s" % (RUN, prop), cwd=os.path.dirname(RUN), env=env)
                line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                out.append("%s rc=%d %d s %s" % (prop, r.returncode, time.time() - t, line[:1]))
                if r.returncode == 2:
                    print(r.stdout[-800:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(bid, " | ".join(out), flush=True)


main()
