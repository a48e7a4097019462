#!/usr/bin/env python3
"""Mutation campaign: mutate.py FILE ... [--jobs 8] [--limit N] [--out OUT.json] [--seed S]

Changes one operator, constant, comparison, condition, argument or statement of a source file at a time, runs the checks
anchored there and, for mutants no check reports, the stable tests. Survivors of both are listed with their change."""
import argparse, ast, concurrent.futures as cf, copy, json, os, random, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "src/models/matrix_operations.py": "C01 C02", "src/models/gpu_matrix_operations.py": "C22",
    "src/models/noise_transformation.py": "C04 C03", "src/models/regression.py": "C05 C08 C27",
    "src/models/error_in_variable.py": "C06 C09 C10 C27", "src/models/smooth_prior.py": "C07 C08",
    "src/models/bayesian_prior.py": "C07 C08", "src/models/abstract_models.py": "C05 C08 C09 C26",
    "src/models/error_metrics.py": "C20", "src/simulation/abstract_network.py": "C12 C11",
    "src/simulation/network.py": "C11 C13", "src/simulation/network_3ph.py": "C11 C13", "src/simulation/lines.py": "C14 C11",
    "src/simulation/load_profile.py": "C17", "src/simulation/noise.py": "C15 C16",
    "src/simulation/run.py": "C12 C13 C16 C17 C18", "src/simulation/run3ph.py": "C12 C13 C16 C17 C18",
    "src/simulation/simulation.py": "C24 C13", "src/simulation/simulation_3ph.py": "C24 C13",
    "src/identification/run.py": "C23 C26 C10 C19", "src/identification/run3ph.py": "C26 C19",
    "src/identification/utils.py": "C21", "plot_results.py": "C21", "identify_network.py": "C19", "simulate_network.py": "C18"}
OPS = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult],
       ast.MatMult: [], ast.Pow: [ast.Mult], ast.Mod: [ast.Mult]}
CMP = {ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
CALLS = {"real": "imag", "imag": "real", "vstack": "hstack", "hstack": "vstack", "min": "max", "max": "min", "any": "all",
         "all": "any", "cos": "sin", "sin": "cos", "cosh": "sinh", "sinh": "cosh", "zeros": "ones", "ones": "zeros",
         "nanmean": "mean", "mean": "sum", "sum": "mean", "flatten": None, "conj": None, "copy": None, "abs": None, "sqrt": None,
         "sort": None, "real_if_close": None, "deepcopy": None, "ceil": "floor", "floor": "ceil"}


def sites(tree):
    """(description, function that changes the tree in place given node path index)"""
    out = []
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(id(n.value)); doc.add(id(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            doc.add(id(n))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                for x in ast.walk(d):
                    doc.add(id(x))
            for x in [n.returns] + [a.annotation for a in n.args.args]:
                if x is not None:
                    for y in ast.walk(x):
                        doc.add(id(y))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("pprint", "print", "ValueError", "IndexError", "NotImplementedError"):
            for x in ast.walk(n):
                doc.add(id(x))
    for k, n in enumerate(nodes):
        if id(n) in doc:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.BinOp):
            for o in OPS.get(type(n.op), []):
                out.append((k, ln, "op", o))
            if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
                out.append((k, ln, "left", None))
        elif isinstance(n, ast.AugAssign):
            for o in OPS.get(type(n.op), []):
                out.append((k, ln, "op", o))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((k, ln, "unary", None))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                out.append((k, ln, "cmp", o))
        elif isinstance(n, ast.BoolOp):
            out.append((k, ln, "bool", None))
            out.append((k, ln, "bool1", None))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                out.append((k, ln, "const", not v))
            elif isinstance(v, (int, float)):
                out.append((k, ln, "const", v + 1))
                if v == 1:
                    out.append((k, ln, "const", 0))
                if isinstance(v, float) and v:
                    out.append((k, ln, "const", v * 2))
            elif isinstance(v, complex):
                out.append((k, ln, "const", -v))
            elif v == "F":
                out.append((k, ln, "const", "C"))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            out.append((k, ln, "iftrue", None))
            out.append((k, ln, "iffalse", None))
        elif isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if nm in CALLS:
                if CALLS[nm]:
                    out.append((k, ln, "rename", CALLS[nm]))
                elif n.args or isinstance(n.func, ast.Attribute):
                    out.append((k, ln, "unwrap", None))
            if len(n.args) >= 2:
                out.append((k, ln, "swapargs", None))
            for i, kw in enumerate(n.keywords):
                out.append((k, ln, "dropkw", i))
        elif isinstance(n, ast.Attribute) and n.attr in ("T", "real", "imag"):
            out.append((k, ln, "attr", None))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            out.append((k, ln, "delete", None))
    return out


class Repl(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        return self.new if n is self.old else self.generic_visit(n)


def apply(src, site):
    tree = ast.parse(src)
    k, ln, kind, arg = site
    n = list(ast.walk(tree))[k]
    before = ast.unparse(n)[:160]
    new = n
    if kind == "op":
        n.op = arg()
    elif kind == "left":
        new = n.left
    elif kind == "unary":
        new = n.operand
    elif kind == "cmp":
        n.ops = [arg()]
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "bool1":
        new = n.values[0]
    elif kind == "const":
        n.value = arg
    elif kind == "iftrue":
        n.test = ast.Constant(True)
    elif kind == "iffalse":
        n.test = ast.Constant(False)
    elif kind == "rename":
        if isinstance(n.func, ast.Attribute):
            n.func.attr = arg
        else:
            n.func.id = arg
    elif kind == "unwrap":
        new = n.args[0] if n.args and not (isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "flatten", "conj")
                                           and not getattr(n.func.value, "id", "") in ("np", "cupy", "copy")) else n.func.value
    elif kind == "swapargs":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "dropkw":
        del n.keywords[arg]
    elif kind == "attr":
        new = n.value if n.attr == "T" else ast.Attribute(n.value, {"real": "imag", "imag": "real"}[n.attr], n.ctx)
    elif kind == "delete":
        new = ast.Pass()
    if new is not n:
        tree = Repl(n, new).visit(tree)
    ast.fix_missing_locations(tree)
    out = ast.unparse(tree)
    return out, "%d %s: %s -> %s" % (ln, kind, before.replace("\n", " "), ast.unparse(new)[:160].replace("\n", " "))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(f, site, checks, a):
    d = tempfile.mkdtemp(prefix="vfm_")
    try:
        sh("git -C /repo archive HEAD | tar x -C %s" % d)
        p = os.path.join(d, f)
        src = open(p).read()
        try:
            out, desc = apply(src, site)
        except Exception as e:
            return None, "cannot apply %s" % e
        if ast.dump(ast.parse(out)) == ast.dump(ast.parse(src)):
            return None, "same"
        open(p, "w").write(out)
        for c in checks:
            e = dict(os.environ, VF_REPO=d, VF_EVIDENCE=os.path.join(d, "ev"), VF_FIRST="1", VF_LIMIT="1500")
            r = sh("timeout 2000 %s/check.sh %s --workers 1 --seed %d" % (V, c, a.seed), env=e)
            if r.returncode == 1:
                return "caught", desc + " | " + c
            if r.returncode != 0:
                return "noverdict", desc + " | " + c + " " + r.stdout[-400:]
        # stable tests, in the copy
        o = os.path.join(d, "o.json")
        r = sh("sed 's#/repo#%s#g; s#/opt/vp/state#%s/state#g' /opt/vp/test.sh > %s/t.sh; cd %s && timeout 600 bash %s/t.sh %s" % (d, d, d, d, d, o))
        try:
            passed = json.load(open(o))["passed"]
            bad = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
        except Exception as x:
            bad = ["tests broke %s" % x]
        return ("tests" if bad else "SURVIVED"), desc
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--checks")
    ap.add_argument("--out", default="/tmp/mut.txt")
    a = ap.parse_args()
    rnd = random.Random(a.seed)
    jobs = []
    for f in a.files:
        src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f], text=True)
        s = sites(ast.parse(src))
        if a.limit and len(s) > a.limit:
            s = rnd.sample(s, a.limit)
        jobs += [(f, x) for x in s]
    print(len(jobs), "mutants", flush=True)
    tot = {}
    with open(a.out, "a") as log, cf.ThreadPoolExecutor(a.jobs) as ex:
        fs = {ex.submit(one, f, s, (a.checks or CHECKS[f]).split(), a): f for f, s in jobs}
        for r in cf.as_completed(fs):
            st, desc = r.result()
            tot[(fs[r], st)] = tot.get((fs[r], st), 0) + 1
            if st:
                log.write("%s %s %s\n" % (st, fs[r], desc))
                log.flush()
            if st in ("SURVIVED", "noverdict"):
                print(st, fs[r], desc, flush=True)
    for k in sorted(tot, key=str):
        print(k, tot[k])


if __name__ == "__main__":
    main()
