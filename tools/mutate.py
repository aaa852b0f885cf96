#!/usr/bin/env python3
"""Systematic mutation of the code under test, to find blind spots of the checks.

mutate.py list [FILE...]            number of mutants per function
mutate.py run OUT.jsonl [--workers N] [--only SUBSTR] [--sample K] [--full]
   every mutant is applied to a copy of PyDynamic under /tmp/mut and the checks which
   are responsible for the mutated function run against it (one of eight shards each,
   all of them with --full) until one reports a violation.
Not run by any registered check.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

MAP = {
    "signals.py": ["C28", "C31", "C29"],
    "deconvolution/fit_filter.py": ["C30"],
    "identification/fit_transfer.py": ["C30"],
    "identification/fit_filter.py": ["C30"],
    "uncertainty/interpolation.py": ["C30"],
    "misc/SecondOrderSystem.py": ["C22", "C29", "C31"],
    "misc/filterstuff.py": ["C23", "C20", "C31", "C29"],
    "misc/impinvar.py": ["C24", "C31"],
    "misc/noise.py": ["C25", "C29", "C31"],
    "misc/testsignals.py": ["C26", "C25", "C29", "C31"],
    "misc/tools.py": ["C27", "C12", "C30", "C29", "C31"],
    "model_estimation/fit_filter.py": {"LSFIR": ["C18", "C31"], "invLSFIR": ["C18", "C31"],
        "invLSFIR_unc": ["C18", "C19", "C09", "C31", "C29"], "invLSFIR_uncMC": ["C19", "C09", "C31", "C29"],
        "": ["C20", "C09", "C31", "C29"]},
    "model_estimation/fit_transfer.py": ["C21", "C09", "C31", "C29"],
    "uncertainty/interpolate.py": {"interp1d_unc": ["C10", "C11", "C31", "C12", "C29"], "": ["C12", "C31", "C29"]},
    "uncertainty/propagate_DFT.py": {
        "GUM_DFT": ["C04", "C05", "C31", "C09", "C29"], "_apply_window": ["C04", "C31"], "_prod": ["C05", "C04", "C31"],
        "_matprod": ["C04", "C05", "C31"], "GUM_iDFT": ["C05", "C31", "C29"], "DFT2AmpPhase": ["C06", "C07", "C31", "C29"],
        "AmpPhase2DFT": ["C06", "C07", "C31", "C29"], "Time2AmpPhase": ["C07", "C31"], "Time2AmpPhase_multi": ["C07", "C31", "C29"],
        "AmpPhase2Time": ["C07", "C31", "C29"], "": ["C08", "C04", "C31", "C09", "C29"]},
    "uncertainty/propagate_MonteCarlo.py": {"MC": ["C14", "C31", "C29", "C28"], "__init__": ["C14", "C31"], "rvs": ["C14", "C31"],
        "SMC": ["C15", "C31", "C29"], "UMC": ["C17", "C31", "C29"], "_UMCevaluate": ["C17"], "": ["C16", "C17", "C31", "C29"]},
    "uncertainty/propagate_convolution.py": ["C03", "C09", "C31", "C29"],
    "uncertainty/propagate_filter.py": {"IIRuncFilter": ["C13", "C09", "C31", "C29"], "": ["C01", "C02", "C03", "C09", "C31", "C29"]},
}

CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"]}
CALL = {"real": "imag", "imag": "real", "cos": "sin", "sin": "cos", "floor": "ceil", "ceil": "floor", "max": "min",
        "min": "max", "any": "all", "all": "any", "conj": "real", "abs": "real", "sqrt": "square", "hstack": "append",
        "ones": "zeros", "zeros": "ones", "ones_like": "zeros_like", "zeros_like": "ones_like", "cumsum": "array",
        "rfft": "fft", "mean": "median", "arctan2": "hypot", "round": "floor"}
ID1 = {"copy", "abs", "conj", "sqrt", "asarray", "array", "atleast_1d", "unwrap", "sorted", "flipud", "real", "squeeze",
       "ravel", "flatten", "int", "float", "ceil", "floor", "deepcopy", "fftshift", "argsort"}


def off(src):
    lines = src.splitlines(True)
    pos = [0]
    for l in lines:
        pos.append(pos[-1] + len(l.encode()))
    return pos


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    raw = src.encode()
    pos = off(src)
    out = []

    def span(n):
        return pos[n.lineno - 1] + n.col_offset, pos[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def add(fn, a, b, new, n, kind):
        out.append(dict(fn=fn, line=n.lineno, a=a, b=b, new=new, kind=kind, old=raw[a:b].decode()))

    def visit(n, fn, skip):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(n, ast.FunctionDef):
                fn = n.name
                for d in n.args.defaults:
                    visit(d, fn, False)
            for ch in n.body:
                if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                    continue
                visit(ch, fn, False)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise)):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "warn"):
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "warn":
            return
        if isinstance(n, ast.JoinedStr):
            return
        if fn:
            ops(n, fn)
        for ch in ast.iter_child_nodes(n):
            visit(ch, fn, False)

    def ops(n, fn):
        a, b = span(n) if hasattr(n, "lineno") else (0, 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l1, r0 = span(n.left)[1], span(n.comparators[0])[0]
            for o in CMP.get(type(n.ops[0]), []):
                add(fn, l1, r0, " " + o + " ", n, "cmp")
        elif isinstance(n, ast.BinOp):
            l1, r0 = span(n.left)[1], span(n.right)[0]
            mid = raw[l1:r0].decode()
            for o in BIN.get(type(n.op), []):
                sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%"}[type(n.op)]
                if mid.count(sym) == 1:
                    add(fn, l1, r0, mid.replace(sym, o), n, "bin")
            add(fn, a, b, "(" + text(n.left) + ")", n, "left")
            add(fn, a, b, "(" + text(n.right) + ")", n, "right")
        elif isinstance(n, ast.BoolOp):
            l1, r0 = span(n.values[0])[1], span(n.values[1])[0]
            mid = raw[l1:r0].decode()
            x, y = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if mid.count(x) == 1:
                add(fn, l1, r0, mid.replace(x, y), n, "bool")
            for v in n.values:
                add(fn, a, b, "(" + text(v) + ")", n, "bool1")
        elif isinstance(n, ast.UnaryOp):
            add(fn, a, b, "(" + text(n.operand) + ")", n, "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(fn, a, b, str(not v), n, "const")
            elif isinstance(v, int):
                add(fn, a, b, str(v + 1), n, "const")
                if v:
                    add(fn, a, b, str(v - 1), n, "const")
            elif isinstance(v, float):
                add(fn, a, b, repr(v * 2 if v else 1.0), n, "const")
                if v:
                    add(fn, a, b, "0.0", n, "const")
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name in CALL and isinstance(f, ast.Attribute):
                fa, fb = span(f)
                add(fn, fb - len(name), fb, CALL[name], n, "call")
            if name in ID1 and len(n.args) >= 1:
                add(fn, a, b, "(" + text(n.args[0]) + ")", n, "ident")
            if name in ID1 and not n.args and isinstance(f, ast.Attribute):
                add(fn, a, b, "(" + text(f.value) + ")", n, "ident")
            if len(n.args) >= 2 and name not in ("isinstance", "hasattr", "range"):
                a0, a1 = n.args[:2]
                s0, e1 = span(a0)[0], span(a1)[1]
                mid = raw[span(a0)[1]:span(a1)[0]].decode()
                add(fn, s0, e1, text(a1) + mid + text(a0), n, "swap")
            for k in n.keywords:
                ka = pos[k.lineno - 1] + k.col_offset
                kb = pos[k.end_lineno - 1] + k.end_col_offset
                # remove with a neighbouring comma
                e = kb
                while raw[e:e + 1].isspace():
                    e += 1
                if raw[e:e + 1] == b",":
                    add(fn, ka, e + 1, "", n, "kwdrop")
                else:
                    s = ka
                    while raw[s - 1:s].isspace():
                        s -= 1
                    if raw[s - 1:s] == b",":
                        add(fn, s - 1, kb, "", n, "kwdrop")
                    else:
                        add(fn, ka, kb, "", n, "kwdrop")
        elif isinstance(n, ast.IfExp):
            add(fn, a, b, "(" + text(n.body) + ")", n, "ifexp")
            add(fn, a, b, "(" + text(n.orelse) + ")", n, "ifexp")
        elif isinstance(n, (ast.If, ast.While)):
            ta, tb = span(n.test)
            add(fn, ta, tb, "True" if isinstance(n, ast.If) else "False", n, "cond")
            if isinstance(n, ast.If):
                add(fn, ta, tb, "False", n, "cond")
        elif isinstance(n, ast.AugAssign):
            ta, tb = span(n.target)
            add(fn, a, b, text(n.target) + " = " + text(n.value), n, "aug")
            add(fn, a, b, "pass", n, "del")
        elif isinstance(n, ast.Assign):
            if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                add(fn, a, b, "pass", n, "del")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(fn, a, b, "pass", n, "del")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            add(fn, a, b, text(n.value), n, "noT")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None and n.step is None:
                add(fn, a, b, ":", n, "slice")
            if n.upper is not None and n.lower is None and n.step is None:
                add(fn, a, b, ":", n, "slice")
        elif isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and False:
            pass

    visit(tree, "", False)
    seen, res = set(), []
    for m in out:
        t = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
        if t in seen or t == raw:
            continue
        try:
            compile(t, path, "exec")
        except (SyntaxError, ValueError):
            continue
        seen.add(t)
        m["text"] = t
        res.append(m)
    return res


def checks_for(rel, fn):
    c = MAP[rel]
    return c if isinstance(c, list) else c.get(fn, c[""])


def everything(only):
    out = []
    for rel in sorted(MAP):
        if only and not any(o in rel for o in only.split(",")):
            continue
        for i, m in enumerate(mutants(os.path.join(REPO, "PyDynamic", rel))):
            m["rel"] = rel
            m["id"] = f"{rel}:{m['fn']}:{m['line']}:{i}"
            out.append(m)
    return out


def shard(check, root, full, timeout, sh=0):
    d = tempfile.mkdtemp(prefix="mutw_")
    try:
        if full:
            env = dict(os.environ, VERIF_REPO=root)
            p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), check], env=env, cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            return {0: None, 1: "full"}.get(p.returncode, f"rc{p.returncode}")
        cfg = dict(prop=check, tier="quick", seed=1, shard=sh, shards=8, only=[], out=os.path.join(d, "r.json"),
                   factor=1.0, shrink_s=0.0, budget_s=300, findings=[], replay=None, stop_first=True)
        env = dict(os.environ, PYTHONPATH=root + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=d,
                   HYPOTHESIS_STORAGE_DIRECTORY=d, TMPDIR=d, VERIF_TIER="quick", VERIF_REPO=root)
        p = subprocess.Popen([PY, "-W", "ignore", "-m", "pbt.worker", json.dumps(cfg)], cwd=d, env=env,
                             stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                             start_new_session=True)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            return "timeout"
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        if not os.path.exists(cfg["out"]):
            return "crash"
        r = json.load(open(cfg["out"]))
        if r["error"]:
            return "error"
        for st in r["laws"]:
            if st["violation"]:
                return st["law"]
            if st["errors"]:
                return "error:" + st["law"]
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = {a.split("=")[0]: a.partition("=")[2] for a in sys.argv[1:] if a.startswith("--")}
    ms = everything(opt.get("--only"))
    if args[0] == "list":
        cnt = {}
        for m in ms:
            cnt[(m["rel"], m["fn"])] = cnt.get((m["rel"], m["fn"]), 0) + 1
        for k, v in cnt.items():
            print(v, *k)
        print(len(ms))
        return
    outp = args[1]
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["id"] for l in open(outp)}
    ids = None
    if "--ids" in opt:  # file of earlier results: repeat the survivors
        ids = {json.loads(l)["id"] for l in open(opt["--ids"]) if json.loads(l)["by"] is None}
    todo = [m for m in ms if m["id"] not in done and (ids is None or m["id"] in ids)]
    random.Random(5).shuffle(todo)
    if opt.get("--sample"):
        todo = todo[: int(opt["--sample"])]
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()
    t0 = time.time()

    def work(k):
        root = f"/tmp/mut/w{k}"
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        shutil.copytree(os.path.join(REPO, "PyDynamic"), os.path.join(root, "PyDynamic"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            f = os.path.join(root, "PyDynamic", m["rel"])
            orig = open(f, "rb").read()
            open(f, "wb").write(m["text"])
            by = None
            t1 = time.time()
            for c in checks_for(m["rel"], m["fn"]):
                r = shard(c, root, "--full" in opt, 200)
                if r:
                    by = f"{c}:{r}"
                    break
            open(f, "wb").write(orig)
            rec = {k2: m[k2] for k2 in ("id", "kind", "old", "new", "line", "fn", "rel")}
            rec.update(by=by, s=round(time.time() - t1, 1))
            with lock:
                with open(outp, "a") as g:
                    g.write(json.dumps(rec) + "\n")
        shutil.rmtree(root, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(opt.get("--workers", 4)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("done", len(todo), "in", time.time() - t0)


main()
