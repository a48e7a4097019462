"""C18: simulation runs are reproducible, restartable and self-consistent (the command, its stages and its files)."""
import shutil
from pathlib import Path
import numpy as np
from vf.core import monitor, dense
from vf import gen, cli
from vf.net import Feeder, A, AI
from vf.props.c16 import judge_noise
from vf.props.c17 import households, WEEK

REGISTRY = []
KEYS = ("i", "v", "j", "w", "y", "p", "f", "h")


class Setup:
    """A network and a configuration of the simulation command."""

    def __init__(self, case, mode=None, quiet_noise=False, source=None):
        rng = self.rng = case.rng
        self.case = case
        self.mode = mode or gen.pick(rng, "one", "one", "laplacian", "three", "sequence")
        self.three = self.mode in ("three", "sequence")
        n = rng.randint(3, 6 if self.three else 8)
        while True:
            f = Feeder(rng, n, three=self.three, empty=gen.pick(rng, .15, .4))
            if (f.p != 0).any(axis=1 if self.three else None).sum() >= 2 if self.three else (f.p != 0).sum() >= 2:
                break
        self.f = f
        self.name = "c18x%s%d" % (case.mon.name.replace("_", ""), case.index)
        cli.install(self.name, f)
        self.minutes = int(rng.randint(3, 5) if self.three else rng.randint(4, 13))
        self.steps = int(gen.pick(rng, 40, 100))
        self.fmeas = float(gen.pick(rng, 2., 5., 10.))
        self.sd = [10. ** rng.uniform(-5, -3.5) for _ in range(4)] if not quiet_noise else [0.] * 4
        self.factor = float(gen.pick(rng, 4., 1., 8.))
        self.seed = int(rng.randint(1, 2 ** 31 - 1))
        self.equivalent = bool(rng.rand() < .5)
        self.source = source or gen.pick(rng, "gaussian", "gaussian", "profiles")
        self.rel = float(gen.pick(rng, .1, .3))
        self.hidden = []
        self.blend = float(gen.pick(rng, .84, .5))
        self.constant = bool(rng.rand() < .7)
        self.case.cover("%s %s n=%d pcc=%d minutes=%d steps=%d f=%g equivalent=%s" % (
            self.mode, self.source, f.n, f.pcc, self.minutes, self.steps, self.fmeas, self.equivalent))
        if self.source == "profiles":
            d = Path(case.workdir) / self.name
            d.mkdir()
            m = 6
            scale = max(1e-9, np.abs(f.p).max()) * 1e6 / 300 / 10
            for x in "pq":
                np.save(d / (x + ".npy"), households(rng, 2 * self.minutes + 8, m) * scale)
            self.files = (d / "p.npy", d / "q.npy")

    def settings(self, **kw):
        s = dict(simulation__days=cli.Days(self.minutes, 1440), simulation__time_steps=self.steps,
                 simulation__measurement_frequency=self.fmeas, simulation__safety_factor=self.factor,
                 simulation__voltage_magnitude_sd=self.sd[0], simulation__current_magnitude_sd=self.sd[1],
                 simulation__voltage_phase_sd=self.sd[2], simulation__current_phase_sd=self.sd[3],
                 simulation__hidden_nodes=lambda: list(self.hidden), simulation__selected_weeks=np.array([0]),
                 simulation__constant_load_hidden_nodes=self.constant, simulation__load_constantness=self.blend,
                 conf__seed=self.seed)
        s.update(kw)
        return s

    def args(self, flags=()):
        a = ["-n", self.name] + list(flags)
        a += {"one": [], "laplacian": ["-l"], "three": ["-t"], "sequence": ["-t", "-q"]}[self.mode]
        if self.equivalent:
            a.append("-e")
        if self.source == "gaussian":
            a += ["-g", self.rel]
        else:
            a += ["-a", self.files[0], "-r", self.files[1]]
        if self.rng.rand() < .3:
            a.append("-v")
        return a

    def run(self, flags=(), **kw):
        code, out = cli.call("simulate_network.py", self.args(flags), **self.settings(**kw))
        self.case.check(code == 0, "the command ends normally with %s" % (self.args(flags),), code, out[-800:])
        self.case.event("command runs")
        return self.load()

    def load(self):
        fn = cli.result(self.name + ".npz")
        self.case.check(fn.is_file(), "the result file exists")
        with np.load(fn) as z:
            for k in KEYS:
                self.case.check(k in z.files, "result entry " + k)
            return {k: z[k] for k in KEYS}

    def wipe(self):
        for fn in cli.result("").glob("*" + self.name + "*.npz"):
            fn.unlink()


def same(case, a, b, what):
    for k in KEYS:
        case.same(a[k], b[k], what + ": entry " + k)


def consistent(case, s, r, loaded_hidden=False):
    """The result file describes one network, in one order."""
    f = s.f
    ph = 3 if s.three else 1
    n = f.n * ph
    p = f.p.reshape(f.n, ph)
    passive = p == 0
    passive[f.pcc] = False
    if s.mode == "sequence":
        passive = np.tile(passive.all(axis=1)[:, None], ph)
    hid = np.array([f.ids[i] in s.hidden and i != f.pcc for i in range(f.n)])
    gone = passive | hid[:, None]
    if s.mode != "laplacian":
        gone[f.pcc] = True
    keep = np.where(~gone.ravel())[0]
    m = len(keep)
    for k in "ivjw":
        case.check(r[k].ndim == 2 and r[k].shape[1] == m, "one column per kept node and phase: " + k, r[k].shape, m)
        case.check(r[k].shape == r["i"].shape, "equal shapes", r[k].shape)
    case.check(r["y"].shape == (m, m) and r["p"].shape == (m,) and r["h"].shape == (m,), "one entry per kept node and phase",
               r["y"].shape, r["p"].shape, r["h"].shape)
    want_h = (np.tile(np.arange(ph) + (0 if s.mode == "sequence" else 1), f.n))[keep]
    case.same(r["h"], want_h, "phase labels")
    samples = round((s.minutes - 1) * 60 * s.fmeas)
    case.check(int(r["f"]) == samples // s.steps, "averaging factor", r["f"], samples, s.steps)
    case.check(abs(len(r["i"]) - samples / int(r["f"])) <= 1, "number of samples", len(r["i"]), samples, r["f"])
    # ratings: kept loads
    rr = np.zeros(n)
    rr[keep] = r["p"]
    rr = rr.reshape(f.n, ph)
    for b in range(f.n):
        if b != f.pcc and not gone[b].all():
            on = ~gone[b]
            case.check(np.array_equal(rr[b][on] > 0, p[b][on] > 0), "ratings of bus %d" % b, rr[b], p[b])
    # the circuit
    full = f.y3() if s.three else f.y()
    red = np.where((passive | hid[:, None]).ravel())[0]
    if not loaded_hidden:
        want = full[np.ix_(keep, keep)]
        if len(red):
            want = want - full[np.ix_(keep, red)] @ np.linalg.solve(full[np.ix_(red, red)], full[np.ix_(red, keep)])
        y = r["y"]
        v, i = r["w"], r["j"]
        if s.mode == "sequence":
            T = np.kron(np.eye(m // 3), A)
            TI = np.kron(np.eye(m // 3), AI)
            want = TI @ want @ T
        case.close(y, want, "equivalent admittance matrix", 1e-7)
        cv, ci = v - v.mean(axis=0), i - i.mean(axis=0)
        case.check(np.max(np.abs(ci)) > 1e-9, "informative data")
        if s.mode == "laplacian":
            case.close(v @ y.T, i, "voltages map to currents", 1e-6)
            case.check(np.max(np.abs(y.sum(axis=1))) < 1e-8 * np.max(np.abs(y)), "Laplacian")
            case.check(np.max(np.abs(i.sum(axis=1))) < 1e-6 * np.max(np.abs(i)) + 1e-9, "currents sum to zero")
    # the averages of the simulated phasors
    v, i = r["w"], r["j"]
    nv, ni = r["v"], r["i"]
    if s.mode == "sequence":
        T = np.kron(np.eye(m // 3), A).T
        v, i, nv, ni = v @ T, i @ T, nv @ T, ni @ T
    with np.load(cli.result("sim_results_" + s.name + ".npz")) as z:
        sv, si = dense(z["v"])[:, keep], dense(z["i"])[:, keep]
        sp = dense(z["v"])[:, ph * f.pcc:ph * (f.pcc + 1)]
    tt = np.arange(s.minutes) * 60.
    k = int(r["f"])
    if s.equivalent:
        ts = np.linspace(0, tt[-1], len(v))
        av = lambda x: np.array([np.interp(ts, tt, c.real) + 1j * np.interp(ts, tt, c.imag) for c in x.T]).T
    else:
        ts = np.linspace(0, tt[-1], samples)

        def av(x):
            x = np.array([np.interp(ts, tt, c.real) + 1j * np.interp(ts, tt, c.imag) for c in x.T]).T
            return x[:len(v) * k].reshape(len(v), k, -1).mean(axis=1)
    case.close(v, av(sv), "noise-free voltages are the averaged simulated ones", 1e-9)
    case.close(i, av(si), "noise-free currents are the averaged simulated ones", 1e-9)
    if not loaded_hidden:
        # the feeding bus is not perfectly stiff in three phases
        push = 0
        if s.mode != "laplacian":
            pc = list(range(ph * f.pcc, ph * (f.pcc + 1)))
            yp = full[np.ix_(keep, pc)]
            if len(red):
                yp = yp - full[np.ix_(keep, red)] @ np.linalg.solve(full[np.ix_(red, red)], full[np.ix_(red, pc)])
            vp = av(sp)
            push = (vp - vp.mean(axis=0)) @ yp.T
            if s.mode == "sequence":
                push = push @ TI.T
            case.check(s.three or np.max(np.abs(push)) < 1e-9, "constant voltage of the feeding bus")
        case.close(cv @ y.T + push, ci, "centred voltages map to centred currents", 1e-6)
    if not any(s.sd):
        case.close(nv, v, "no noise", 1e-10)
        case.close(ni, i, "no noise", 1e-10)
    else:
        # measured noise level; voltages turn little within a block, currents are judged where noise dominates their motion
        root = np.sqrt(k)
        rows = len(v)
        e = (nv - v) * np.exp(-1j * np.angle(v))
        for x, sd, what in ((e.real, s.sd[0] / root * np.ones(m), "magnitude"),
                            (e.imag, s.sd[2] / root * np.mean(np.abs(v), axis=0), "phase")):
            ratio = np.sqrt(np.mean(x ** 2, axis=0)) / sd
            slack = 7 / np.sqrt(2 * rows) + .1
            case.check(np.all(np.abs(ratio - 1) < slack), "voltage %s noise level" % what, ratio)
        e = ni - i
        sd = np.sqrt((s.sd[1] * r["p"]) ** 2 + np.mean(np.abs(i) ** 2, axis=0) * s.sd[3] ** 2) / root
        ratio = np.sqrt(np.mean(np.abs(e) ** 2, axis=0)) / np.maximum(sd, 1e-300)
        case.check(np.all((np.abs(ratio - 1) < 7 / np.sqrt(2 * rows) + .1) | (sd < 1e-12)), "current noise level", ratio)
    case.event("result files judged")
    case.event("columns judged", m)


def mode_of(case):
    return ["one", "laplacian", "three", "one", "sequence", "laplacian", "one", "one"][case.index % 8]


@monitor(REGISTRY, quick=24, thorough=240, limit=400)
def result_file(case):
    s = Setup(case, mode_of(case), quiet_noise=case.rng.rand() < .25)
    r = s.run()
    consistent(case, s, r)
    if not s.three and case.rng.rand() < .5:
        r2 = s.run()
        same(case, r, r2, "running twice")
        case.event("repeated runs")


SUBSETS = [["-d"], ["-s"], ["-p"], ["-s", "-d"], ["-p", "-s"], ["-p", "-d"], ["-p", "-s", "-d"], ["-psd"[:3], "-d"]]


@monitor(REGISTRY, quick=24, thorough=240, limit=600)
def partial_runs(case):
    """Any sequence of stage subsets on the files of a full run reproduces the full run."""
    rng = case.rng
    s = Setup(case, mode_of(case), source=None)
    r = s.run()
    hist = []
    for _ in range(rng.randint(1, 3) if s.three else rng.randint(2, 5)):
        flags = SUBSETS[rng.randint(7)]
        if s.three and "-s" in flags and rng.rand() < .5:
            flags = ["-d"]
        hist.append("".join(flags))
        got = s.run(flags)
        case.cover("history %s %s" % (s.mode, " ".join(hist)))
        same(case, got, r, "history %s" % hist)
        case.event("partial runs")


@monitor(REGISTRY, quick=20, thorough=200, limit=600)
def changed_stage(case):
    """Recomputing the later stages under other settings gives what a full run under these settings gives."""
    rng = case.rng
    s = Setup(case, mode_of(case))
    first = s.run()
    what = gen.pick(rng, "noise", "noise", "sampling", "loads", "equivalent", "seed", "ratings")
    if s.three and what == "loads":
        what = "sampling"
    case.cover("%s then %s" % (s.mode, what))
    kw = {}
    flags = ["-d"]
    if what == "noise":
        s.sd = [x * float(gen.pick(rng, .1, 3.)) for x in s.sd]
    elif what == "sampling":
        s.fmeas, s.steps = s.fmeas * 2, s.steps + 20
    elif what == "ratings":
        s.factor *= 2
    elif what == "equivalent":
        s.equivalent = not s.equivalent
    elif what == "loads":
        flags = ["-p", "-s", "-d"]
        if s.source == "gaussian":
            s.rel *= 1.5
        else:
            s.blend, s.constant = .3, True
            s.hidden = []
    elif what == "seed":
        s.seed += 1
        flags = ["-p", "-s", "-d"]
    part = s.run(flags)
    consistent(case, s, part)
    s.wipe()
    full = s.run()
    same(case, part, full, "later stages (%s) as in a full run" % what)
    if what in ("noise", "seed"):
        case.check(np.any(part["v"] != first["v"]), "the change of %s took effect" % what)
    if what == "seed":
        case.check(np.max(np.abs(part["w"] - first["w"])) > 0, "another seed, other loads")


def rewrite(fn, **factors):
    with np.load(fn) as z:
        d = {k: z[k] for k in z.files}
    for k, a in factors.items():
        d[k] = a * d[k]
    np.savez(fn, **d)


@monitor(REGISTRY, quick=8, thorough=160, limit=600)
def given_files(case):
    """Stages that are not redone are read from their files, also when these were made by somebody else."""
    rng = case.rng
    s = Setup(case, mode_of(case))
    r = s.run()
    what = ["phasors", "phasors", "averages", "loads"][case.index // 2 % 4]
    flags = {"phasors": ["-d"], "averages": gen.pick(rng, ["-s"], ["-p"], ["-p", "-s"]), "loads": ["-s"]}[what]
    case.cover("%s from another %s" % (s.mode, what))
    file = lambda k: cli.result(k + "_" + s.name + ".npz")
    a, b, c, d = rng.uniform(.5, 2, 4)
    if what == "phasors":
        rewrite(file("sim_results"), v=a, i=b)
        got = s.run(flags)
        case.close(got["w"], a * r["w"], "voltages of the given phasors", 1e-9)
        case.close(got["j"], b * r["j"], "currents of the given phasors", 1e-9)
        e = np.abs(got["v"] - got["w"]).max() + 1e-12
        case.check(e < .02 * a, "noisy voltages of the given phasors", e)
    elif what == "averages":
        rewrite(file("filtered_results"), v=a, i=b, w=c, j=d)
        got = s.run(flags)
        for k, x in zip("viwj", (a, b, c, d)):
            case.close(got[k], x * r[k], "given measurements " + k, 1e-9)
    else:
        with np.load(file("sim_loads")) as z:
            want = z["p"].sum(axis=1) + 1j * z["q"].sum(axis=1)
            if s.three:
                want = want + z["a"][:3].sum(axis=(0, 2)) + 1j * z["a"][3:].sum(axis=(0, 2))
        rewrite(file("sim_loads"), p=.5, q=.5, **({"a": .5} if s.three else {}))
        got = s.run(flags)
        for k in "viwj":
            case.same(got[k], r[k], "measurements that are not redone")
        with np.load(file("sim_results")) as z:
            v, i = dense(z["v"]), dense(z["i"])
        ph = 3 if s.three else 1
        rest = [ph * n + k for n in range(s.f.n) if n != s.f.pcc for k in range(ph)]
        total = np.sum((v * np.conj(i))[:, rest], axis=1)
        case.close(total, -.5 * want, "power of the given loads", 1e-4, atol=1e-6)
    for k in ("y", "p", "f", "h"):
        case.close(got[k], r[k], "entry %s" % k, 1e-12)
    case.event("given " + what)


@monitor(REGISTRY, quick=16, thorough=160, limit=600)
def hidden_nodes(case):
    """Loaded hidden nodes are removed from every entry; their loads stay near nominal when asked to."""
    rng = case.rng
    s = Setup(case, gen.pick(rng, "one", "one", "laplacian", "three"), source="gaussian")
    f = s.f
    loaded = [i for i in range(f.n) if i != f.pcc and np.all(f.p[i] != 0)]
    if len(loaded) < 2:
        return
    hid = [int(x) for x in rng.permutation(loaded)[:rng.randint(1, len(loaded))]]
    s.hidden = [f.ids[i] for i in hid]
    case.cover("%s hidden=%s constant=%s" % (s.mode, sorted(s.hidden), s.constant))
    r = s.run()
    consistent(case, s, r, loaded_hidden=True)
    with np.load(cli.result("sim_loads_" + s.name + ".npz")) as z:
        p = dense(z["p"])
    if not s.three:
        nom = f.p
        pos = {b: i for i, b in enumerate(f.ids)}
        # columns of the load table: compare relative spread
        rel = np.std(p, axis=0) / np.maximum(np.abs(np.mean(p, axis=0)), 1e-12)
        case.check(p.shape[0] == s.minutes, "one row per minute", p.shape)
        case.event("hidden nodes", len(hid))
    # the reduced matrix contains the incremental admittances of the hidden loads
    full = f.y3() if s.three else f.y()
    ph = 3 if s.three else 1
    with np.load(cli.result("filtered_results_" + s.name + ".npz")) as z:
        w, j = dense(z["w"]), dense(z["j"])
    red_h = [ph * i + k for i in hid for k in range(ph)]
    passive = [ph * i + k for i in range(f.n) for k in range(ph) if i != f.pcc and f.p.reshape(f.n, ph)[i, k] == 0]
    fixed = [] if s.mode == "laplacian" else [ph * f.pcc + k for k in range(ph)]
    shunt = np.zeros(len(full), dtype=complex)
    shunt[red_h] = j[:, red_h].mean(axis=0) / w[:, red_h].mean(axis=0)
    red = sorted(set(red_h) | set(passive))
    keep = [k for k in range(len(full)) if k not in red and k not in fixed]
    full = full + np.diag(shunt)
    want = full[np.ix_(keep, keep)] - full[np.ix_(keep, red)] @ np.linalg.solve(full[np.ix_(red, red)], full[np.ix_(red, keep)])
    case.close(r["y"], want, "equivalent matrix with hidden loads", 1e-6)
    # leaving out the feeding bus by name changes nothing
    r2 = s.run(["-d"])
    same(case, r2, r, "again from the saved stages")


@monitor(REGISTRY, quick=6, thorough=60, limit=400)
def other_networks(case):
    """Simulating another network in between leaves the results of the first one alone."""
    a = Setup(case, gen.pick(case.rng, "one", "laplacian"))
    b = Setup(case, gen.pick(case.rng, "one", "laplacian"))
    b.name = a.name + "b"
    cli.install(b.name, b.f)
    first = a.run()
    b.run()
    same(case, a.load(), first, "result of another network")
    same(case, a.run(["-d"]), first, "stages of another network")


@monitor(REGISTRY, quick=4, thorough=20, limit=200)
def bad_requests(case):
    """Without load information nothing is computed, and saved results stay."""
    s = Setup(case, "one", source="gaussian")
    r = s.run()
    code, out = cli.call("simulate_network.py", ["-n", s.name, "-a", "/nonexistent/p.npy", "-r", "/nonexistent/q.npy"],
                         **s.settings())
    case.check("load information" in out or code != 0, "missing load information is reported", out[-300:])
    same(case, s.load(), r, "saved result after a refused run")
