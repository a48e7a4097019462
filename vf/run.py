#!/usr/bin/env python3
"""Decides one property: stages /repo's working tree, runs the monitors in parallel workers, writes the evidence.

Usage: run.py C01 [--tier quick|thorough] [--replay FILE] [--only MONITOR]
Exit: 0 held on everything explored, 1 violated (with a VIOLATION line), 2 no verdict.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
EVIDENCE = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPO = os.environ.get("VF_REPO", "/repo")
PYTHON = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")


def stage(dest):
    os.makedirs(dest)
    for d in ("conf", "src"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dest, d),
                        ignore=shutil.ignore_patterns("__pycache__", "*.pyc"))
    for f in os.listdir(REPO):
        if f.endswith((".py", ".sh", ".md")) and os.path.isfile(os.path.join(REPO, f)):
            shutil.copy2(os.path.join(REPO, f), dest)


def known_findings(prop):
    """finding id -> description, from the committed list."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.isfile(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def env_for(home):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "GIT_"))}
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(home, "mpl"),
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", HOME=home, TMPDIR=os.path.join(home, "tmp"),
             PYTHONWARNINGS="ignore")
    os.makedirs(e["TMPDIR"], exist_ok=True)
    os.makedirs(e["MPLCONFIGDIR"], exist_ok=True)
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    t0 = time.time()
    one = None
    if a.replay:
        r = json.load(open(a.replay))
        one, seed, tier = (r["monitor"], r["index"]), r["seed"], r["tier"]
    nw = 1 if one else (a.workers or min(8, os.cpu_count() or 8))
    limit = float(os.environ.get("VF_LIMIT", "780" if tier == "quick" else "14000"))
    if a.only:
        os.environ["VF_ONLY"] = a.only
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    results, errors = [], []
    try:
        procs = []
        for w in range(nw):
            home = os.path.join(scratch, "w%d" % w)
            os.makedirs(home)
            staged = os.path.join(home, "repo")
            stage(staged)
            out = os.path.join(home, "out.json")
            cmd = [PYTHON, os.path.join(HERE, "worker.py"), prop, str(w), str(nw), str(seed), tier, staged, out]
            if one:
                cmd += [one[0], str(one[1])]
            log = open(os.path.join(home, "log"), "wb")
            procs.append((subprocess.Popen(cmd, cwd=staged, env=env_for(home), stdin=subprocess.DEVNULL,
                                           stdout=log, stderr=subprocess.STDOUT, start_new_session=True), out, home))
        deadline = t0 + limit
        for p, out, home in procs:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                errors.append("a worker did not finish in time")
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            if os.path.isfile(out):
                results.append(json.load(open(out)))
            else:
                errors.append("a worker ended without a result (rc %s): %s" % (
                    p.returncode, open(os.path.join(home, "log"), "rb").read()[-1500:].decode("utf8", "replace")))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    cases = [c for r in results for c in r["cases"]]
    violations = [{"monitor": c["monitor"], "index": c["index"], "message": c["violation"]} for c in cases if c["violation"]]
    for r in results:
        if r["fatal"]:
            if re.search(r'File "[^"]*/repo/(src|conf|[a-z_]+\.py)', r["fatal"]) or "vf/props" in r["fatal"]:
                # importing the code under test (or using what it offers) failed: nothing of it can hold
                violations.append({"monitor": "import", "index": 0, "message": "the code cannot be used: " + r["fatal"]})
            else:
                errors.append(r["fatal"])
    for c in cases:
        if c.get("hang"):
            # endless when the other cases of this monitor need a tiny part of the limit, or when none of several ends
            own = [d for d in cases if d["monitor"] == c["monitor"]]
            times = sorted(d["t"] for d in own if not d.get("hang"))
            if (len(times) > 2 and times[len(times) // 2] < c["hang"] / 30) or (not times and len(own) > 2):
                violations.append({"monitor": c["monitor"], "index": c["index"], "message":
                                   "no result within %d s, other cases take %s s" % (
                                       c["hang"], "%.1f" % times[len(times) // 2] if times else "as long or more")})
                continue
        if c["error"]:
            errors.append("%s[%s]: %s" % (c["monitor"], c["index"], c["error"]))
    listed = known_findings(prop)
    seen_known = {}
    for c in cases:
        for fid, msg in c["findings"]:
            if fid in listed:
                seen_known.setdefault(fid, msg)
            else:
                violations.append({"monitor": c["monitor"], "index": c["index"], "message": "%s: %s" % (fid, msg)})

    # coverage of this run
    events, per_mon = {}, {}
    for c in cases:
        m = per_mon.setdefault(c["monitor"], {"cases": 0, "checks": 0, "nontrivial": set(), "seconds": 0.0})
        m["cases"] += 1
        m["checks"] += c["checks"]
        m["seconds"] += c.get("t", 0)
        m["nontrivial"].update(c["nontrivial"])
        for k, v in c["events"].items():
            events[k] = events.get(k, 0) + v
    blind = [n for n, m in per_mon.items() if m["checks"] == 0]
    distinct = set()
    for c in cases:
        distinct.update(c["nontrivial"])
    if blind:
        errors.append("monitors that observed nothing: %s" % ", ".join(blind))
    if not cases and not violations:
        errors.append("no case ran")
    samples, had = [], set()
    for c in cases:
        if c["sample"] and c["monitor"] not in had and len(samples) < 12:
            had.add(c["monitor"])
            samples.append(c["sample"])
    import importlib.util
    meta = json.load(open(os.path.join(HERE, "meta.json"))).get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(cases), "distinct_nontrivial": len(distinct),
            "rule": meta.get("rule", "seeded random cases per monitor; a case is non-trivial when its oracle had data to judge"),
            "samples": samples or ["none"],
            "oracle_checks": sum(c["checks"] for c in cases),
            "monitors": {n: {"cases": m["cases"], "checks": m["checks"], "distinct_nontrivial": len(m["nontrivial"]),
                             "cpu_s": round(m["seconds"], 2)} for n, m in sorted(per_mon.items())},
            "events": events,
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    if not one and not a.only:
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)

    for fid in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, listed[fid]))
    if violations:
        rdir = os.path.join(EVIDENCE, "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for v in violations:
            shown.setdefault(v["monitor"], v)
        for v in shown.values():
            rp = os.path.join(rdir, "%s_%s_%s_%s.json" % (prop, v["monitor"], v["index"], seed))
            with open(rp, "w") as f:
                json.dump({"property": prop, "monitor": v["monitor"], "index": v["index"], "seed": seed, "tier": tier,
                           "message": v["message"]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  %s[%s]: %s" % (v["monitor"], v["index"], v["message"][:1800]))
        print("%d violating cases of %d" % (len(violations), len(cases)))
    for e in errors[:5]:
        print("ERROR: %s" % e, file=sys.stderr)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d checks, %.1f s" % (
        prop, tier, seed, len(cases), len(distinct), ev["coverage"]["oracle_checks"], time.time() - t0))
    if a.verbose:
        for n, m in sorted(per_mon.items()):
            print("   %-45s cases %4d checks %7d cpu %.1fs" % (n, m["cases"], m["checks"], m["seconds"]))
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
