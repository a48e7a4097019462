"""Runs a shard of the cases of one property. Usage: worker.py PROP SHARD NSHARDS SEED TIER STAGED OUT [MONITOR INDEX]"""
import importlib
import json
import os
import sys
import time
import warnings


def main():
    prop, shard, nshards, seed, tier, staged, out = sys.argv[1:8]
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    os.chdir(staged)
    os.makedirs(os.path.expanduser("~/.config"), exist_ok=True)
    sys.path.insert(0, staged)
    sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    warnings.simplefilter("ignore")
    t0 = time.time()
    res = {"cases": [], "fatal": None}
    try:
        import numpy as np
        np.seterr(all="ignore")
        from vf.core import run_case
        mod = importlib.import_module("vf.props." + prop.lower())
        warnings.simplefilter("ignore")
        tasks = []
        only = os.environ.get("VF_ONLY")
        if len(sys.argv) > 8:
            mon = [m for m in mod.REGISTRY if m.name == sys.argv[8]][0]
            tasks = [(mon, int(sys.argv[9]))]
        else:
            for m in mod.REGISTRY:
                if only and m.name != only:
                    continue
                tasks += [(m, i) for i in range(m.thorough if tier == "thorough" else m.quick)]
            tasks = tasks[shard::nshards]
        budget = float(os.environ.get("VF_BUDGET", "0"))
        done, hung, first = 0, set(), bool(os.environ.get("VF_FIRST"))
        for m, i in tasks:
            if m.name in hung:
                continue
            if budget and time.time() - t0 > budget:
                break
            t = time.time()
            r = run_case(prop, m, i, seed, tier, staged)
            r["t"] = time.time() - t
            res["cases"].append(r)
            done += 1
            if r.get("hang"):
                hung.add(m.name)  # the remaining cases would use up the time as well
            if first and r["violation"]:
                break
        res["planned"], res["done"] = len(tasks), done
    except BaseException:
        import traceback
        res["fatal"] = traceback.format_exc()[-3000:]
    res["wall"] = time.time() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.replace(out + ".tmp", out)


if __name__ == "__main__":
    main()
