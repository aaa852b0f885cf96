"""One worker process: runs all laws of a property with its share of the cases."""
import importlib
import json
import os
import sys
import time
import traceback
import zlib


def main():
    cfg = json.loads(sys.argv[1])
    out = cfg["out"]
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    from pbt import core

    res = dict(laws=[], error=None, findings={})
    try:
        t0 = time.time()
        core.assert_sut()
        importlib.import_module("pbt.props." + cfg["prop"].lower())
        laws = core.LAWS.get(cfg["prop"], [])
        if cfg["only"]:
            laws = [l for l in laws if l.name in cfg["only"]]
        if cfg.get("replay"):
            case = cfg["replay"]["case"]
            lw = [l for l in laws if l.name == cfg["replay"]["law"]][0]
            res["replay"] = core.run_check(lw, case)
        else:
            if cfg["shard"] == 0:
                for fid in cfg["findings"]:
                    res["findings"][fid] = core.PROBES[fid]()
            # rotate so that the shards do not all run the slow law at once
            k = cfg["shard"] % max(1, len(laws))
            for lw in laws[k:] + laws[:k]:
                n = max(1, int(lw.examples(cfg["tier"]) * cfg["factor"]))
                share = n // cfg["shards"] + (1 if cfg["shard"] < n % cfg["shards"] else 0)
                if share == 0:
                    continue
                seed = zlib.crc32(
                    f"{cfg['seed']}/{lw.prop}/{lw.name}/{cfg['shard']}".encode())
                t1 = time.time()
                st = core.run_law(lw, seed, share, cfg["shrink_s"], t0 + cfg["budget_s"],
                                  skip_first=cfg["shard"] != 0)
                st["wall"] = time.time() - t1
                res["laws"].append(st)
                if st["errors"] or (st["violation"] and cfg.get("stop_first")):
                    break
    except BaseException as e:  # noqa
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)
    # no atexit surprises from pools etc.
    sys.stderr.flush()
    os._exit(0)


main()
