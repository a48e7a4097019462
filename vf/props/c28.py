"""C28: the batch script, run for real with stand-ins for the three commands which record the configuration they would see."""
import json
import os
import re
import shutil
import subprocess
import sys
import types
from pathlib import Path

import numpy as np
from vf import gen
from vf.core import monitor

REGISTRY = []
STUB = """#!/bin/bash
n=$(ls "$VF_LOG" | wc -l)
d="$VF_LOG/$(printf %05d $n)"
mkdir "$d" && cp conf/*.py "$d/" && printf '%s\\n' "$@" > "$d/args"
pwd > "$d/cwd"
case " $VF_FAIL " in *" $n "*) exit 1;; esac
exit 0
"""
_cache = {}


def settings(folder):
    """Value of every entry of the configuration files, as an import would see them."""
    texts = {f.name: f.read_text() for f in folder.glob("*.py")}
    key = tuple(sorted(texts.items()))
    if key not in _cache:
        out, keep = {}, {k: v for k, v in sys.modules.items() if k == "conf" or k.startswith("conf.")}
        try:
            pkg = types.ModuleType("conf")
            sys.modules["conf"] = pkg
            for name in ["conf.py"] + sorted(set(texts) - {"conf.py", "__init__.py"}):
                m = types.ModuleType("conf." + name[:-3])
                m.__file__ = os.path.abspath(os.path.join("conf", name))
                sys.modules[m.__name__] = m
                setattr(pkg, name[:-3], m)
                exec(compile(texts[name], m.__file__, "exec"), m.__dict__)
                for k, v in m.__dict__.items():
                    if not k.startswith("_") and isinstance(v, (int, float, list, str, np.ndarray)):
                        out[name[:-3] + "." + k] = np.asarray(v).tolist()
        finally:
            for k in [k for k in sys.modules if k == "conf" or k.startswith("conf.")]:
                del sys.modules[k]
            sys.modules.update(keep)
        _cache[key] = out
    return _cache[key]


def options(script, args):
    """The options as the command itself reads them."""
    ns = {}
    src = Path(script).read_text()
    if script not in _cache:
        sys.path.insert(0, os.getcwd())
        import importlib.util
        if script == "plot_results.py":
            import vf.props.c21  # the colour table its imports miss here
        spec = importlib.util.spec_from_file_location("vf_" + script[:-3], os.path.abspath(script))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        import click
        _cache[script] = [v for v in vars(mod).values() if isinstance(v, click.Command)][0]
    return _cache[script].make_context(script, list(args)).params


def prepare(case):
    home = Path(case.workdir) / ("batch%d" % case.index)
    shutil.rmtree(str(home), ignore_errors=True)
    (home / "bin").mkdir(parents=True)
    (home / "log").mkdir()
    work = home / "repo"
    work.mkdir()
    shutil.copytree("conf", str(work / "conf"), ignore=shutil.ignore_patterns("__pycache__"))
    for f in Path(".").glob("*.*"):
        if f.is_file() and f.suffix in (".py", ".sh"):
            shutil.copy2(str(f), str(work))
    for n in ("python3", "python"):
        (home / "bin" / n).write_text(STUB)
        (home / "bin" / n).chmod(0o755)
    return home, work


def launch(home, work, args, fail=()):
    e = dict(os.environ, PATH=str(home / "bin") + ":/usr/local/bin:/usr/bin:/bin", VF_LOG=str(home / "log"),
             VF_FAIL=" ".join(str(k) for k in fail))
    p = subprocess.run(["bash", "run_multiple_sims.sh"] + args, cwd=str(work), env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=100)
    calls = []
    for d in sorted((home / "log").iterdir()):
        a = (d / "args").read_text().splitlines()
        calls.append((a[0], a[1:], settings(d), (d / "cwd").read_text().strip()))
    return p.returncode, p.stdout.decode(errors="replace"), calls


def lists(rng, text):
    """The script with the values of its loops replaced, and these values; None if it is not written with such loops."""
    vals, found = {}, re.findall(r"(?m)^ *for (\w+) in ([^\n;]*)$", text)
    if not found:
        return None
    pools = {"seed": [11, 13, 1, 111, 131, 1311, 7, 999], "noise": ["0.1", "0.2", "0.5", "1", "2", "5", "10"],
             "days": [1, 2, 3, 5, 7, 10, 15, 21, 30, 45, 60, 70]}
    out, kinds = [], iter(["seed", "noise", "seed", "days"])
    res = {}
    for ln in text.split("\n"):
        m = re.match(r"^( *for (\w+) in )[^\n;]*$", ln)
        if m:
            k = next(kinds, None)
            if k is None or (m.group(2) == "seed") != (k == "seed"):
                return None
            v = [pools[k][i] for i in rng.permutation(len(pools[k]))[:rng.randint(1, 4)]]
            res.setdefault(k, []).append([float(x) for x in v])
            ln = m.group(1) + " ".join(str(x) for x in v)
        out.append(ln)
    if sorted(len(v) for v in res.values()) != [1, 1, 2]:
        return None
    return "\n".join(out), {"n": (res["seed"][0], res["noise"][0]), "s": (res["seed"][1], res["days"][0])}


def study(case, mode, calls, base, want):
    """One study: full grid of settings, three commands per setting, all under that setting, nothing else changed."""
    entry = {"n": "conf.noise_level", "s": "simulation.days"}[mode]
    follow = {"conf.noise_level": [k for k in base if k.endswith("_sd") or k.endswith(".noise_level")],
              "simulation.days": ["simulation.days"]}[entry] + ["conf.seed"]
    grid, stage, sim = [], 0, None
    nets = set()
    for script, args, conf, cwd in calls:
        case.check(os.path.basename(script) in ("simulate_network.py", "identify_network.py", "plot_results.py"), "known command", script)
        o = options(os.path.basename(script), args)
        nets.add(o["network"])
        for k in base:
            if k not in follow:
                case.check(conf.get(k) == base[k], "no other setting is changed", k, conf.get(k), base[k])
        now = (conf["conf.seed"], conf[entry])
        if script.startswith("simulate"):
            full = not (o["loads"] or o["network_sim"] or o["noise"])
            if full:
                sim = conf
            case.check(sim is not None, "noise is added to a simulated network")
            case.check(sim["conf.seed"] == now[0] and (mode == "n" or sim[entry] == now[1]),
                       "the simulation belongs to the setting", now)
            stage, at = 1, now
        elif script.startswith("identify"):
            case.check(stage == 1 and at == now, "identification follows the simulation of its setting", now)
            stage = 2
        else:
            case.check(stage == 2 and at == now, "report follows the identification of its setting", now)
            stage = 0
            grid.append(now)
    case.check(stage == 0, "every identification is reported")
    case.check(len(nets) == 1, "one network throughout", nets)
    case.check(len(grid) == len(set(grid)), "no setting is run twice", grid)
    seeds, values = sorted({g[0] for g in grid}), sorted({g[1] for g in grid})
    case.check(len(grid) == len(seeds) * len(values), "every value is run with every seed", grid)
    if want is not None:
        per = len(base["simulation.selected_weeks"]) if mode == "s" else 1
        case.check(sorted(grid) == sorted((s, v * per) for s in want[0] for v in want[1]), "the declared settings are the ones in effect",
                   grid, want)
        case.event("declared grids")
    case.event("settings run", len(grid))


@monitor(REGISTRY, quick=40, thorough=400)
def batches(case):
    rng = case.rng
    home, work = prepare(case)
    base = settings(work / "conf")
    before = {p.name: p.read_bytes() for p in (work / "conf").iterdir() if p.is_file()}
    want = None
    if rng.rand() < .8:
        r = lists(rng, (work / "run_multiple_sims.sh").read_text())
        if r:
            (work / "run_multiple_sims.sh").write_text(r[0])
            want = r[1]
        else:
            case.event("loops not recognised")
    args = gen.pick(rng, ["-n"], ["-s"], ["-ns"], ["-s", "-n"])
    fail = [int(k) for k in rng.randint(0, gen.pick(rng, 6, 15, 40), rng.randint(1, 5))] if rng.rand() < .7 else []
    case.cover("%s own lists=%s failing=%s" % (args, want, fail))
    code, out, calls = launch(home, work, args, fail)
    case.check(len(calls) > 0, "the study runs", code, out[-200:])
    after = {p.name: p.read_bytes() for p in (work / "conf").iterdir() if p.is_file()}
    case.check(before == after, "the configuration is restored", [k for k in before if before[k] != after.get(k)])
    if not fail or code == 0:
        flags = "".join(args)
        if "n" in flags and "s" in flags:
            # the noise study ends before the sample size study starts
            ends = [k for k, c in enumerate(calls) if c[2]["simulation.days"] != base["simulation.days"]]
            cut = None
            for k, c in enumerate(calls):  # sizes may start with the default one: cut at the first full simulation without -v
                o = options(os.path.basename(c[0]), c[1])
                if c[0].startswith("simulate") and not (o["loads"] or o["network_sim"] or o["noise"]) and \
                        k + 1 < len(calls) and calls[k + 1][0].startswith("identify"):
                    cut = k
                    break
            case.check(cut is not None and cut > 0, "both studies run")
            study(case, "n", calls[:cut], base, want and want["n"])
            study(case, "s", calls[cut:], base, want and want["s"])
        elif "n" in flags:
            study(case, "n", calls, base, want and want["n"])
        else:
            study(case, "s", calls, base, want and want["s"])
    for c in calls:
        case.check(os.path.samefile(c[3], str(work)), "commands run in the repository folder", c[3])
    case.event("commands", len(calls))
    shutil.rmtree(str(home))


@monitor(REGISTRY, quick=8, thorough=40)
def refusals(case):
    rng = case.rng
    home, work = prepare(case)
    before = {p.name: p.read_bytes() for p in (work / "conf").iterdir() if p.is_file()}
    args = gen.pick(rng, [], ["-x"], ["-n", "-q"], ["-z", "-s"], ["-v"], ["-k", "-n"])
    case.cover("%s" % args)
    code, out, calls = launch(home, work, args)
    case.check(not calls, "nothing is run", calls[:1])
    if args:
        case.check(code != 0 and out.strip(), "an unknown flag is reported", code, out)
    else:
        case.check(code == 0, "no study asked for", code)
    case.check(before == {p.name: p.read_bytes() for p in (work / "conf").iterdir() if p.is_file()}, "configuration untouched")
    shutil.rmtree(str(home))


@monitor(REGISTRY, quick=1, thorough=1)
def documented(case):
    """Every command line of the documentation is understood, and names a network that exists."""
    from src.simulation import net_templates, net_templates_3ph
    text = Path("README.md").read_text() if os.path.isfile("README.md") else ""
    seen = 0
    for script, rest in re.findall(r"(?m)^ *python3? +((?:simulate_network|identify_network|plot_results)\.py)(.*)$", text):
        args = rest.split()
        case.cover(script + rest)
        if "--help" in args:
            args = []
        o = options(script, args)
        if args:
            mods = [net_templates_3ph] if o.get("three_phased") else [net_templates] if script.startswith("sim") else \
                [net_templates, net_templates_3ph]
            case.check(any(hasattr(m, o["network"] + "_net") or hasattr(m, o["network"]) for m in mods), "the network exists", o["network"])
        seen += 1
    case.event("documented command lines", seen)
    case.check(True, "documentation read")
