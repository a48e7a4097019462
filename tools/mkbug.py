#!/usr/bin/env python3
"""Builds and confirms planted bugs from definition files: mkbug.py DEF.py ... (DEF holds BUGS, a list of dicts).

Each dict: id, property, edits [(file, old, new[, count])], demo (python source), needs, breaks. A bug is kept in
seeded/<id> when its patch touches only original lines, the stable tests pass with it, and its demo separates the trees."""
import concurrent.futures as cf, json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "a4eaa8e"
DEMO = """#!/bin/bash
# runs demo.py on a scratch copy of the code in the current directory
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
cp -r conf src ./*.py ./*.sh "$D"
cd "$D" || exit 2
mkdir -p "$D/home/.config" "$D/tmp"
export HOME="$D/home" TMPDIR="$D/tmp" PYTHONPATH="$D" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$D/mpl" OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
timeout 280 /opt/venv/bin/python "$H/demo.py"
rc=$?
cd / && rm -rf "$D"
exit $rc
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def original(repo, f):
    """line number -> is it from the original repository"""
    out = sh("git -C /repo blame -s --line-porcelain HEAD -- " + f).stdout
    res, n = {}, None
    root = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).split()[0]
    for l in out.splitlines():
        m = re.match(r"^([0-9a-f]{40}) \d+ (\d+)", l)
        if m:
            res[int(m.group(2))] = m.group(1) == root
    return res


def make(b):
    d = tempfile.mkdtemp(prefix="vfb_")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (d, d))
        dest = os.path.join(d, ".demo"); os.makedirs(dest)
        open(dest + "/demo.sh", "w").write(DEMO); os.chmod(dest + "/demo.sh", 0o755)
        open(dest + "/demo.py", "w").write(b["demo"])
        for q in b.get("dirs", []):
            shutil.copytree(q, os.path.join(dest, os.path.basename(q)), ignore=shutil.ignore_patterns("__pycache__"))
        r0 = sh("bash %s/demo.sh" % dest, cwd=d)
        if r0.returncode:
            return b["id"], "demo fails on the clean tree: " + r0.stdout[-700:]
        for e in b["edits"]:
            p = os.path.join(d, e[0]); s = open(p).read()
            want = e[3] if len(e) > 3 else 1
            if s.count(e[1]) != want:
                return b["id"], "edit matches %d times: %r" % (s.count(e[1]), e[1][:80])
            open(p, "w").write(s.replace(e[1], e[2]))
        patch = sh("git diff", cwd=d).stdout
        for f in set(e[0] for e in b["edits"]):
            orig = original(d, f)
            for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh("git diff -U0 -- " + f, cwd=d).stdout, re.M):
                a, n = int(h[0]), int(h[1] or 1)
                bad = [k for k in range(a, a + n) if not orig.get(k)]
                if bad:
                    return b["id"], "touches lines of fix commits: %s %s" % (f, bad)
                if n == 0:
                    b.setdefault("pure_insert", True)
        r1 = sh("bash %s/demo.sh" % dest, cwd=d)
        if r1.returncode == 0:
            return b["id"], "demo passes with the bug"
        c = sh("/opt/venv/bin/python -m compileall -q conf src *.py && bash -c '%s'" % "true", cwd=d)
        if c.returncode:
            return b["id"], "does not compile"
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=d + "/.mpl",
                 OPENBLAS_NUM_THREADS="1")
        sh("/opt/venv/bin/python -m pytest test -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
           "--randomly-seed=131 --randomly-dont-reorganize --ignore=test/cuda_test.py -o junit_family=xunit2 "
           "--junitxml=%s/.j.xml" % d, cwd=d, env=e)
        sh("python3 /opt/vp/results.py %s/.o.json junit:%s/.j.xml" % (d, d))
        o = json.load(open(d + "/.o.json"))
        bad = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in o["passed"]]
        if bad:
            return b["id"], "fails stable tests %s" % bad[:3]
        t = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        for f in ("demo.sh", "demo.py"):
            shutil.copy2(os.path.join(dest, f), t)
        for q in b.get("dirs", []):
            shutil.copytree(q, os.path.join(t, os.path.basename(q)), ignore=shutil.ignore_patterns("__pycache__"))
        open(t + "/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        return b["id"], "kept%s; demo says: %s" % (" (insertion only)" if b.get("pure_insert") else "", r1.stdout.strip().splitlines()[-1][:150] if r1.stdout.strip() else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bugs = [b for f in sys.argv[1:] for b in runpy.run_path(f)["BUGS"]]
    only = os.environ.get("ONLY")
    bugs = [b for b in bugs if not only or b["id"] in only.split(",")]
    with cf.ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(make, bugs):
            print("%-28s %s" % (i, r), flush=True)
