"""One shard of a check: python -m zkv.worker PROP TIER SEED SHARD NSHARDS SECONDS OUT"""
import importlib
import json
import os
import sys
import time
import traceback

from zkv import boot


def main():
    pid, tier, seed, shard, nshards, seconds, out = sys.argv[1:8]
    seed, shard, nshards, seconds = int(seed), int(shard), int(nshards), float(seconds)
    boot.import_paths()
    from zkv import core

    core.CURRENT = out + ".case"
    mod = importlib.import_module("zkv.props." + pid.lower())
    prop = mod.PROP
    only = os.environ.get("ZKV_ONLY")
    deadline = time.time() + seconds
    result = {"subs": {}, "violation": None, "error": None}
    stats_all = {}
    try:
        for k, sub in enumerate(prop.subs):
            if only and sub.name not in only.split(","):
                continue
            total = sub.quick if tier == "quick" else sub.thorough
            total = int(total * float(os.environ.get("ZKV_SCALE", "1"))) or 1
            n = total // nshards + (1 if shard < total % nshards else 0)
            st = {"evaluations": 0, "classes": {}, "keys": set(), "samples": []}
            stats_all[sub.name] = st
            if n == 0:
                continue
            t0 = time.time()
            s = (seed * 1000003 + k * 10007 + shard * 101 + 7) % (2 ** 63)
            bad = core.explore(sub, n, s, st, deadline)
            st["wall_s"] = round(time.time() - t0, 2)
            if bad:
                result["violation"] = {"sub": sub.name, "case": bad[0], "message": bad[1],
                                       "trace": bad[2]}
                break
    except BaseException:
        result["error"] = traceback.format_exc()
    for name, st in stats_all.items():
        st["keys"] = [k.hex() for k in st["keys"]]
        st["samples"] = [x[3] for x in st["samples"]]
        result["subs"][name] = st
    with open(out, "w") as f:
        json.dump(result, f)


if __name__ == "__main__":
    main()
