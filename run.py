#!/usr/bin/env python3
"""Run the check of one property:  run.py C01 [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored (KNOWN-FINDING lines for listed findings)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself failed (harness error)
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--law", action="append", default=[])
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--factor", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--timing", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    repo = os.environ.get("VERIF_REPO", "/repo")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_")
    try:
        code = go(a, tier, repo, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def spawn(cfg, repo, scratch, tier):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONHOME"):
        env.pop(k, None)
    env.update(
        PYTHONPATH=os.path.realpath(repo) + os.pathsep + HERE,
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        MPLCONFIGDIR=scratch, HYPOTHESIS_STORAGE_DIRECTORY=scratch, TMPDIR=scratch,
        VERIF_TIER=tier, VERIF_REPO=repo)
    return subprocess.Popen(
        [PY, "-W", "ignore", "-m", "pbt.worker", json.dumps(cfg)], cwd=scratch, env=env,
        stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
        stderr=open(cfg["out"] + ".err", "w"), start_new_session=True)


def load_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"]
                if e["property"] == prop and e["status"] == "open"]


def go(a, tier, repo, t0, scratch):
    prop = a.prop
    findings = load_findings(prop)
    replay = None
    shards = a.shards
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        shards = 1
    limit = 780 if tier == "quick" else 6 * 3600
    procs = []
    for i in range(shards):
        cfg = dict(prop=prop, tier=tier, seed=a.seed, shard=i, shards=shards,
                   only=a.law, out=os.path.join(scratch, f"r{i}.json"),
                   factor=a.factor, shrink_s=25 if tier == "quick" else 120,
                   budget_s=300 if tier == "quick" else 3 * 3600,
                   findings=[e["id"] for e in findings], replay=replay)
        procs.append((cfg, spawn(cfg, repo, scratch, tier)))
    errors = []
    results = []
    for cfg, p in procs:
        try:
            p.wait(timeout=max(1.0, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            errors.append(f"shard {cfg['shard']}: no answer within {limit} s")
        try:
            os.killpg(p.pid, 9)  # the worker and whatever it left running
        except OSError:
            pass
        p.wait()
        if os.path.exists(cfg["out"]):
            with open(cfg["out"]) as f:
                results.append(json.load(f))
        else:
            err = open(cfg["out"] + ".err").read()[-3000:]
            errors.append(f"shard {cfg['shard']}: no result, stderr: {err}")
    for r in results:
        if r["error"]:
            errors.append(r["error"])

    if replay is not None:
        if errors:
            print("\n".join(errors), file=sys.stderr)
            return 2
        msg = results[0].get("replay")
        if msg:
            print(f"{replay['law']}: {msg}")
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("replay: the property holds on this case")
        return 0

    # merge
    laws = {}
    for r in results:
        for st in r["laws"]:
            m = laws.setdefault(st["law"], dict(evaluations=0, skipped=0, discarded=0,
                                                keys=set(), labels={}, samples=[],
                                                violations=[], wall=0.0))
            m["evaluations"] += st["evaluations"]
            m["skipped"] += st["skipped"]
            m["discarded"] += st["discarded"]
            m["keys"].update(st["keys"])
            m["wall"] += st.get("wall", 0.0)
            for k, v in st["labels"].items():
                m["labels"][k] = m["labels"].get(k, 0) + v
            m["samples"] += st["samples"]
            if st["violation"]:
                m["violations"].append(st["violation"])
            errors += st["errors"]

    code = 0
    lines = []
    for r in results:
        for fid, msg in r["findings"].items():
            e = [x for x in findings if x["id"] == fid][0]
            if msg:
                lines.append(f"KNOWN-FINDING: property={prop} {e['what']}")
    nviol = 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for name, m in sorted(laws.items()):
        if not m["violations"]:
            continue
        v = min(m["violations"], key=lambda v: len(json.dumps(v["case"])))
        path = os.path.join(HERE, "replays", f"{prop}_{name}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, law=name, seed=a.seed, tier=tier,
                           message=v["msg"], case=v["case"]), f, indent=1, sort_keys=True)
        nviol += 1
        lines.append(f"{name}: {v['msg']}")
        lines.append(f"  case: {json.dumps(v['case'], sort_keys=True)[:600]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    ev = dict(
        property=prop, tier=tier, seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=sum(m["evaluations"] for m in laws.values()),
            distinct_nontrivial=sum(len(m["keys"]) for m in laws.values()),
            rule=rule_text(prop),
            samples=[dict(law=n, case=shorten(s)) for n, m in sorted(laws.items())
                     for s in m["samples"][:2]][:24],
            laws={n: dict(evaluations=m["evaluations"], distinct_nontrivial=len(m["keys"]),
                          skipped_by_time_budget=m["skipped"], discarded=m["discarded"],
                          classes=dict(sorted(m["labels"].items())),
                          cpu_s=round(m["wall"], 2)) for n, m in sorted(laws.items())}),
        assumptions=["floating-point comparisons use stated relative tolerances",
                     "search, not proof: absence of a violation covers the generated cases"],
        wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if a.timing:
        for n, m in sorted(laws.items()):
            print(f"   {n:40s} n={m['evaluations']:6d} nt={len(m['keys']):6d} "
                  f"disc={m['discarded']} skip={m['skipped']} cpu={m['wall']:.1f}s "
                  f"{m['labels']}")
    if code == 0 and errors:
        print("HARNESS ERROR\n" + "\n".join(errors), file=sys.stderr)
        code = 2
    elif errors:
        print("also: harness errors\n" + "\n".join(errors)[-3000:], file=sys.stderr)
    if code == 0 and not laws:
        print("HARNESS ERROR: no laws ran", file=sys.stderr)
        code = 2
    print(f"{prop}: {ev['coverage']['evaluations']} cases, "
          f"{ev['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{ev['wall_s']} s, exit {code}")
    return code


def rule_text(prop):
    path = os.path.join(HERE, "pbt", "props", prop.lower() + ".py")
    for line in open(path):
        if line.startswith("RULE = "):
            return line[len("RULE = "):].strip().strip('"')
    return "distinct generated cases"


def shorten(case):
    s = json.dumps(case)
    return case if len(s) < 1500 else s[:1500] + "..."


if __name__ == "__main__":
    main()
