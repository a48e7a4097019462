#!/usr/bin/env python3
"""Runs checks against changed copies of /repo: trybugs.py [--prop C01,C02] [--jobs 2] [--reverts] [--tests] [PATCH|DIR ...]

DIR is a seeded bug folder (patch.diff, meta.json); --reverts takes every fix commit back, one at a time."""
import argparse, concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(job, a):
    name, patch, props, rev = job
    d = tempfile.mkdtemp(prefix="vft_")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s" % d)
        r = sh("cd %s && git init -q . && git apply %s %s" % (d, "-R" if rev else "", patch))
        if r.returncode:
            return name, "does not apply: " + r.stdout[-200:].strip()
        out = []
        for p in props:
            e = dict(os.environ, VF_REPO=d, VF_EVIDENCE=os.path.join(d, "ev"), VF_LIMIT="1500")
            r = sh("%s/check.sh %s --workers %d --seed %d" % (V, p, a.workers, a.seed), env=e)
            mons = sorted(set(re.findall(r"^  (\w+)\[", r.stdout, re.M)))
            n = re.search(r"(\d+) violating", r.stdout)
            out.append("%s:%s" % (p, "CAUGHT(%s; %s)" % (n.group(1), ",".join(mons)) if r.returncode == 1 else
                                  "missed" if r.returncode == 0 else "rc%d %s" % (r.returncode, r.stdout[-300:])))
        return name, " ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", nargs="*")
    ap.add_argument("--prop")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--reverts", action="store_true")
    a = ap.parse_args()
    jobs = []
    tmp = tempfile.mkdtemp(prefix="vfp_")
    if a.reverts:
        for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
            m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
            if m:
                f = os.path.join(tmp, m.group(2))
                open(f, "w").write(subprocess.check_output("git -C /repo show %s" % m.group(2), shell=True, text=True))
                jobs.append(("revert %s %s" % (m.group(2), m.group(3)), f, a.prop.split(",") if a.prop else [m.group(1)], True))
    for w in a.what:
        w = os.path.abspath(w)
        if os.path.isdir(w):
            p = json.load(open(os.path.join(w, "meta.json")))["property"]
            jobs.append((os.path.basename(w), os.path.join(w, "patch.diff"), a.prop.split(",") if a.prop else [p], False))
        else:
            jobs.append((os.path.basename(w), w, a.prop.split(","), False))
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for name, r in ex.map(lambda j: one(j, a), jobs):
            f = os.path.join(V, "tools", "detection.json")
            if os.path.isdir(os.path.join(V, "seeded", name)) and not a.prop:
                d = json.load(open(f)) if os.path.isfile(f) else {}
                d[name] = re.sub(r"CAUGHT\(\d+; (.*?)\)", lambda m: m.group(1).replace(",", ", "), r)
                json.dump(dict(sorted(d.items())), open(f, "w"), indent=1)
            print("%-40s %s" % (name, r), flush=True)
    shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
