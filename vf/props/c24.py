"""C24: simulations sharing an output folder keep their results apart, one after the other or at the same time."""
import os
import pickle
import threading
import time
import traceback
from pathlib import Path
import numpy as np
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from vf.core import monitor, dense
from vf.net import Feeder
from vf.props.c13 import quiet, profile

REGISTRY = []


class Job:
    """One simulation: its network, the requested powers, then what it reported."""
    def __init__(self, rng, three=None, f=None, t=None):
        self.f = f or Feeder(rng, rng.randint(2, 7), three=(rng.rand() < .3) if three is None else three)
        self.net = self.f.build(SimulatedNet3P if self.f.three else SimulatedNet)
        self.s = profile(rng, self.f, t or rng.randint(1, 5))
        self.error, self.start, self.end = None, 0., 0.

    def run(self, out):
        self.start = time.time()
        try:
            f, s, net = self.f, self.s, self.net
            pos = {b: i for i, b in enumerate(f.ids)}
            li = [pos[int(b)] for b in net.load.bus]
            kw = {} if out is None else {"output_path": out}
            if f.three:
                ai = [pos[int(b)] for b in net.asymmetric_load.bus]
                asym = [s[:, ai, k].real.copy() for k in range(3)] + [s[:, ai, k].imag.copy() for k in range(3)]
                net.run(s[:, li].sum(axis=2).real, s[:, li].sum(axis=2).imag, asym, verbose=False,
                        calculate_voltage_angles=True, **kw)
            else:
                net.run(s[:, li].real.copy(), s[:, li].imag.copy(), verbose=False, calculate_voltage_angles=True, **kw)
            self.v, self.i = (dense(a) for a in net.get_current_and_voltage())
        except Exception:
            self.error = traceback.format_exc()
        self.end = time.time()
        return self


def judge(case, jobs, out):
    """Called when every simulation has ended."""
    paths = []
    for k, j in enumerate(jobs):
        what = "simulation %d of %d (%s, %d steps)" % (k + 1, len(jobs), "3ph" if j.f.three else "1ph", len(j.s))
        case.check(j.error is None, what + " ended normally", (j.error or "")[-600:])
        rows, ch = len(j.s), j.f.n * (3 if j.f.three else 1)
        case.check(j.v.shape == (rows, ch), what + ": shape of its own loads", j.v.shape, (rows, ch))
        col = [3 * j.f.pcc + p for p in range(3)] if j.f.three else [j.f.pcc]
        rest = np.setdiff1d(np.arange(ch), col)
        case.close((j.v * np.conj(j.i))[:, rest], -j.s.reshape(rows, -1)[:, rest], what + ": powers of its own loads", 1e-6, atol=1e-6)
        r = j.net.sim_result
        path = Path(str(r.result_path)).resolve()
        paths.append(path)
        if out is not None:
            case.check(Path(str(out)).resolve() in path.parents, what + ": inside the given folder", str(path))
        case.check(path.is_dir(), what + ": its folder still exists", str(path))
        saved = type(r).from_dir(Path(str(r.result_path)))
        files = sorted(p.stem for p in path.rglob("*.csv"))
        want = sorted(n for n in vars(r) if n != "result_path")
        case.check(files == want, what + ": exactly its own tables", files)
        for n in want:
            a, b = getattr(saved, n), getattr(r, n)
            case.check([str(c) for c in a.columns] == [str(c) for c in b.columns] and len(a) == len(b),
                       what + ": table %s still has its own layout" % n, a.shape, b.shape)
            case.close(a.values, b.values, what + ": table %s still holds its own values" % n, 1e-12, atol=1e-12)
    case.check(len(set(paths)) == len(paths), "every simulation has its own folder", [p.name for p in paths])
    for a in paths:
        case.check(not any(a in b.parents for b in paths), "folders are not nested", str(a))
    case.event("simulations judged", len(jobs))
    pairs = [(a, b) for k, a in enumerate(jobs) for b in jobs[:k]]
    case.event("pairs started within one second", sum(abs(a.start - b.start) < 1 for a, b in pairs))
    case.event("pairs running at the same time", sum(a.start < b.end and b.start < a.end for a, b in pairs))


class SlowFolders:
    """Injects delays around the creation of folders, in all threads and forked processes."""
    def __init__(self, rng, longest=.03):
        self.pauses = list(rng.uniform(0, longest, 64)) if rng.rand() < .7 else [0.]

    def __enter__(self):
        self.real, n = Path.mkdir, [0]

        def mkdir(path, *a, **k):
            n[0] += 1
            time.sleep(self.pauses[(n[0] * 7 + threading.get_ident() // 4096 + os.getpid()) % len(self.pauses)])
            r = self.real(path, *a, **k)
            time.sleep(self.pauses[(n[0] * 11 + os.getpid()) % len(self.pauses)])
            return r
        Path.mkdir = mkdir

    def __exit__(self, *a):
        Path.mkdir = self.real


def outdir(case):
    d = Path(case.workdir) / ("c24_%s_%d" % (case.mon.name, case.index)) / "shared"
    if case.rng.rand() < .5:
        d.mkdir(parents=True)
    else:
        d.parent.mkdir(parents=True)
    return d


def make_jobs(case, n):
    rng = case.rng
    kind = ["same network", "same network and length", "different networks", "both kinds"][case.index % 4]
    if kind == "both kinds":
        return kind, [Job(rng, three=bool(k % 2)) for k in range(n)]
    if kind == "different networks":
        return kind, [Job(rng) for _ in range(n)]
    f = Feeder(rng, rng.randint(2, 7), three=rng.rand() < .3)
    t = rng.randint(1, 4)
    return kind, [Job(rng, f=f, t=t if "length" in kind else None) for _ in range(n)]


@monitor(REGISTRY, quick=16, thorough=160)
def one_after_the_other(case):
    n = case.rng.randint(2, 6)
    kind, jobs = make_jobs(case, n)
    out = outdir(case) if case.rng.rand() < .8 else None      # or the default folder of the library
    case.cover("%s n=%d default folder=%s" % (kind, n, out is None))
    quiet(lambda: [j.run(out) for j in jobs])
    judge(case, jobs, out)


@monitor(REGISTRY, quick=8, thorough=80)
def same_object(case):
    """One network object simulated repeatedly: each reported folder keeps the tables of its own run."""
    rng = case.rng
    n = rng.randint(2, 5)
    base = Job(rng)
    jobs = []
    out = outdir(case)
    case.cover("n=%d 3ph=%s" % (n, base.f.three))
    for _ in range(n):
        j = Job(rng, f=base.f)
        j.net = base.net
        quiet(lambda: j.run(out))
        frozen = type("Net", (), {})()
        frozen.sim_result = base.net.sim_result
        j.net = frozen
        jobs.append(j)
    judge(case, jobs, out)


@monitor(REGISTRY, quick=12, thorough=120)
def several_processes(case):
    """Forked processes, released together, each running one or two simulations."""
    rng = case.rng
    n, per = rng.randint(2, 5), rng.randint(1, 3)
    if case.index % 4 == 3:
        n, per = rng.randint(8, 13), 1
    kind, jobs = make_jobs(case, n * per)
    slow = SlowFolders(rng, .01)
    out = outdir(case)
    case.cover("%s processes=%d each=%d" % (kind, n, per))
    start = time.time() + .3 + rng.rand()
    delays = rng.choice([0, 0, .02, .2] if n < 8 else [0, 0, 0, .02], n)
    pids, files = [], []
    for k in range(n):
        fn = out.parent / ("result_%d" % k)
        files.append(fn)
        pid = os.fork()
        if pid == 0:
            try:
                time.sleep(max(0, start + delays[k] - time.time()))
                mine = jobs[k * per:(k + 1) * per]
                with slow:
                    quiet(lambda: [j.run(out) for j in mine])
                with open(fn, "wb") as f:
                    pickle.dump([(j.start, j.end, j.error, getattr(j, "v", None), getattr(j, "i", None),
                                  None if j.error else {a: (str(b) if a == "result_path" else b)
                                                        for a, b in vars(j.net.sim_result).items()}) for j in mine], f)
            finally:
                os._exit(0)
        pids.append(pid)
    for p in pids:
        os.waitpid(p, 0)
    for k in range(n):
        case.check(files[k].is_file(), "process %d reported" % k)
        for j, (start_, end_, error, v, i, r) in zip(jobs[k * per:], pickle.load(open(files[k], "rb"))):
            j.start, j.end, j.error, j.v, j.i = start_, end_, error, v, i
            if not error:
                cls = quiet(lambda: __import__(type(j.net).__module__, fromlist=["x"]))
                cls = cls.SimulationResult3P if j.f.three else cls.SimulationResult
                r["result_path"] = Path(r["result_path"])
                j.net = type("Net", (), {})()
                j.net.sim_result = cls(**r)
    judge(case, jobs, out)


@monitor(REGISTRY, quick=9, thorough=90)
def several_threads(case):
    rng = case.rng
    n = rng.randint(2, 4) if case.index % 3 else rng.randint(6, 10)
    kind, jobs = make_jobs(case, n)
    out = outdir(case)
    case.cover("%s threads=%d" % (kind, n))
    slow = SlowFolders(rng)
    gate = threading.Barrier(n)

    def work(j):
        gate.wait()
        j.run(out)

    def go():
        ts = [threading.Thread(target=work, args=(j,)) for j in jobs]
        [t.start() for t in ts]
        [t.join() for t in ts]
    with slow:
        quiet(go)
    judge(case, jobs, out)
