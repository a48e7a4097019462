"""C13: simulated measurements obey the circuit laws at every time step."""
import contextlib
import io
from pathlib import Path
import numpy as np
import pandas as pd
from src.simulation.simulation import SimulatedNet, SimulationResult
from src.simulation.simulation_3ph import SimulatedNet3P, SimulationResult3P
from src.simulation import run, run3ph
from vf.core import monitor, Frozen, dense
from vf import gen
from vf.net import Feeder

REGISTRY = []
TABLES = ("bus", "load", "line", "ext_grid", "asymmetric_load", "controller")


def snapshot(net):
    return {t: net[t].copy(deep=True) for t in TABLES}


def unchanged(case, net, before):
    for t, d in before.items():
        case.check(d.equals(net[t]) and list(d.columns) == list(net[t].columns), "network table %s is unchanged" % t)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn()


def outdir(case, name="out"):
    import tempfile
    return Path(tempfile.mkdtemp(prefix=name, dir=case.workdir))


def profile(rng, f, t):
    """Per bus (and phase) complex powers of every step; (t, n) or (t, n, 3)."""
    shape = (t, f.n) if not f.three else (t, f.n, 3)
    p = f.p[None] * rng.uniform(.3, 1.7, shape)
    q = f.q[None] * rng.uniform(.3, 1.7, shape)
    if f.three:
        for i in range(f.n):
            if f.sym[i]:
                p[:, i], q[:, i] = p[:, i, :1], q[:, i, :1]
    if rng.rand() < .3:                     # some generation
        s = np.where(rng.rand(f.n) < .3, -1, 1)
        p = p * (s[None, :, None] if f.three else s[None])
    return p + 1j * q


def simulate(net, f, s, out, **kw):
    """Gives the powers to the network in the order of its load tables."""
    pos = {b: i for i, b in enumerate(f.ids)}
    li = [pos[int(b)] for b in net.load.bus]
    if not f.three:
        return quiet(lambda: net.run(s[:, li].real.copy(), s[:, li].imag.copy(), output_path=out, verbose=False,
                                     calculate_voltage_angles=True, **kw))
    ai = [pos[int(b)] for b in net.asymmetric_load.bus]
    asym = [s[:, ai, k].real.copy() for k in range(3)] + [s[:, ai, k].imag.copy() for k in range(3)]
    return quiet(lambda: net.run(s[:, li].sum(axis=2).real, s[:, li].sum(axis=2).imag, asym, output_path=out,
                                 verbose=False, calculate_voltage_angles=True, **kw))


def judge(case, f, net, s, steps=None):
    """s: requested powers of the returned rows."""
    v, i = net.get_current_and_voltage()
    v, i = dense(v), dense(i)
    t, n = len(s), f.n
    case.check(v.shape == i.shape == (t, n * (3 if f.three else 1)), "one row per step, one column per bus", v.shape, i.shape)
    y = f.y3() if f.three else f.y()
    col = np.array([3 * f.pcc + k for k in range(3)]) if f.three else np.array([f.pcc])
    rest = np.setdiff1d(np.arange(v.shape[1]), col)
    scale = np.max(np.abs(y))
    net_i = v @ y.T                         # what flows into the lines
    case.close(i[:, rest], net_i[:, rest], "currents are the admittance matrix times the voltages", 1e-9, atol=1e-10 * scale)
    case.close(i, v @ dense(net.make_y_bus()).T, "currents are the network's matrix times the voltages", 1e-9,
               atol=1e-9 * scale)
    power = v * np.conj(i)
    s = f.served(s, v)
    want = -s.reshape(t, -1)
    case.close(power[:, rest], want[:, rest], "power of every load at every step", 1e-6, atol=1e-6)
    case.event("time steps", t)
    # feeding bus
    if not f.three:
        case.close(v[:, col[0]], np.ones(t), "set voltage of the feeding bus", 1e-9)
        losses = np.zeros(t, dtype=complex)
        for ln in f.lines:
            if ln[5]:
                z = (ln[3] + 1j * ln[4]) / f.kv ** 2
                losses += np.abs(v[:, ln[0]] - v[:, ln[1]]) ** 2 / np.conj(z)
        case.close(power[:, col[0]], s.sum(axis=1) - s[:, f.pcc] + losses, "the feeding bus supplies loads and losses",
                   1e-6, atol=1e-6)
    else:
        a = np.exp(2j * np.pi / 3)
        pos = v[:, col] @ np.array([1, a, a ** 2]) / 3
        case.close(pos, np.ones(t), "positive sequence voltage of the feeding bus", 1e-7)
        case.close(v[:, col], np.tile([1, a ** 2, a], (t, 1)), "balanced voltage of the stiff feeding bus", 1e-3)
        losses = np.zeros(t, dtype=complex)
        w = v.reshape(t, n, 3) @ (np.array([[1, 1, 1], [1, a, a ** 2], [1, a ** 2, a]]) / 3)
        for ln in f.lines:
            if ln[5]:
                for k in range(3):
                    z = f.types[ln[6]][min(k, 1)] * ln[2] / (f.kv ** 2 / 3)
                    losses += 3 * np.abs(w[:, ln[0], k] - w[:, ln[1], k]) ** 2 / np.conj(z)
        case.close(power[:, col].sum(axis=1), s.sum(axis=(1, 2)) + losses, "the feeding bus supplies loads and losses",
                   1e-3, atol=1e-5)
    tables(case, f, net, v, s, steps, power)
    return v, i


def tables(case, f, net, v, s, steps, power):
    r = net.sim_result
    case.check(Path(r.result_path).is_dir(), "the result folder exists", str(r.result_path))
    saved = type(r).from_dir(Path(r.result_path))
    steps = list(range(len(s))) if steps is None else list(steps)
    for k, ph in enumerate(("a_", "b_", "c_") if f.three else ("",)):
        m, a, p, q = ("vm_%spu" % ph, "va_%sdegree" % ph, "p_%smw" % ph, "q_%smvar" % ph)
        for name in (m, a, p, q):
            d = getattr(r, name)
            case.check([str(c) for c in d.columns] == [str(b) for b in f.ids], name + ": one column per bus, in order",
                       list(d.columns))
            case.check([int(x) for x in d.index] == steps, name + ": one row per requested step, in order", list(d.index))
            case.same(getattr(saved, name).values, d.values, name + ": saved table")
        vk = v[:, k::3] if f.three else v
        case.close(getattr(r, m).values, np.abs(vk), m, 1e-9)
        case.close(getattr(r, m).values * np.exp(1j * np.deg2rad(getattr(r, a).values)), vk, m + " and " + a, 1e-9)
        want = s[:, :, k] if f.three else s
        rest = [j for j in range(f.n) if j != f.pcc]
        got = getattr(r, p).values + 1j * getattr(r, q).values
        case.close(got[:, rest], want[:, rest], p + ", " + q, 1e-6, atol=1e-7)
        if not f.three:
            case.close(got[:, f.pcc], -power[:, f.pcc], "power table of the feeding bus", 1e-6, atol=1e-6)


@monitor(REGISTRY, quick=40, thorough=500)
def single_phase(case):
    rng = case.rng
    f = Feeder(rng, gen.pick(rng, None, None, None, None, None, rng.randint(12, 40)))
    dep = rng.rand() < .3
    if dep:
        f.voltage_dependent(rng)
    net = f.build(SimulatedNet)
    t = rng.randint(1, 6)
    s = profile(rng, f, t)
    before = snapshot(net)
    out = outdir(case)
    case.check(net.get_current_and_voltage() == (None, None), "nothing before the first simulation")
    steps = None
    kw = {}
    if rng.rand() < .4:
        steps = [int(k) for k in rng.permutation(t)[:rng.randint(1, t + 1)]]
        kw["time_steps"] = steps
    case.cover("n=%d pcc=%d T=%d lines=%d steps=%s%s" % (f.n, f.pcc, t, len(f.lines), steps, " voltage dependent" * dep))
    r = simulate(net, f, s, out, **kw)
    case.check(r is net, "run returns the network")
    unchanged(case, net, before)
    rows = s if steps is None else s[steps]
    v, i = judge(case, f, net, rows, steps)
    first = net.sim_result
    if rng.rand() < .5:
        simulate(net, f, s, outdir(case), **kw)
        v2, i2 = net.get_current_and_voltage()
        case.close(v2, v, "simulating again", 1e-12)
        case.close(dense(i2), i, "simulating again", 1e-9)
        unchanged(case, net, before)
        case.check(first is not net.sim_result, "results of different runs are different objects")
    if rng.rand() < .5:                     # history must not matter: other loads, then permuted rows
        perm = rng.permutation(t)
        simulate(net, f, s[perm], outdir(case))
        v3, _ = judge(case, f, net, s[perm])
        if steps is None:
            case.close(v3, v[perm], "permuted requests give permuted rows", 1e-7)


def foreign(rng, shift):
    """A network made elsewhere, its feeder, the bus of every load, the feeding bus and its voltage."""
    import pandapower as pp
    f = Feeder(rng, rng.randint(2, 9))
    base = pp.create_empty_network(sn_mva=float(gen.pick(rng, 1., 1., 100.)))
    for k in f.ids:
        pp.create_bus(base, f.kv, index=k, name=str(k))
    vm, va = (1., 0.) if rng.rand() < .4 else (float(rng.uniform(.95, 1.05)), float(rng.uniform(-180, 180)))
    feed = vm * np.exp(1j * np.deg2rad(va))
    if shift is None:
        top = f.ids[f.pcc]
        pp.create_ext_grid(base, top, vm_pu=vm, va_degree=va)
    else:       # fed through a transformer
        top = int(gen.pick(rng, 70, max(f.ids) + 1))
        pp.create_bus(base, 110., index=top, name="grid")
        pp.create_ext_grid(base, top, vm_pu=vm, va_degree=va)
        pp.create_transformer_from_parameters(base, top, f.ids[f.pcc], sn_mva=25., vn_hv_kv=110., vn_lv_kv=f.kv, vkr_percent=.4,
                                              vk_percent=6., pfe_kw=0., i0_percent=0., shift_degree=float(shift))
    for a, b, length, r, x, on in f.lines:
        pp.create_line_from_parameters(base, f.ids[a], f.ids[b], length, r / length, x / length, 0, 1e10)
    at = []
    for i in rng.permutation(f.n):
        for _ in range(gen.pick(rng, 0, 1, 1, 2)):
            if i != f.pcc:
                pp.create_load(base, f.ids[i], .01, .01, index=int(rng.randint(1000)) * 100 + len(at))
                at.append(i)
    if not at:
        i = (f.pcc + 1) % f.n
        pp.create_load(base, f.ids[i], .01, .01)
        at.append(i)
    return base, f, at, top, feed


def run_foreign(case, base, f, at):
    rng = case.rng
    net = SimulatedNet(other=base)
    before = snapshot(net)
    t = rng.randint(1, 5)
    p = rng.uniform(0, .3, (t, len(at))) / f.n
    q = p * rng.uniform(.1, .9, p.shape)
    s = np.zeros((t, f.n), dtype=complex)
    for k, i in enumerate(at):
        s[:, i] += p[:, k] + 1j * q[:, k]
    quiet(lambda: net.run(p.copy(), q.copy(), output_path=outdir(case), verbose=False, calculate_voltage_angles=True))
    unchanged(case, net, before)
    v, i = (dense(k) for k in net.get_current_and_voltage())
    order = [int(k) for k in net.bus.index]
    case.check(v.shape == i.shape == (t, len(order)), "one row per step, one column per bus", v.shape, i.shape)
    case.event("time steps", t)
    return net, v, i, s, order, [order.index(k) for k in f.ids]


@monitor(REGISTRY, quick=16, thorough=250)
def imported(case):
    """Networks made elsewhere: any number of loads at a bus, none at others, numbered and named independently."""
    shift = gen.pick(case.rng, None, None, 0.)
    base, f, at, top, feed = foreign(case.rng, shift)
    net, v, i, s, order, at_bus = run_foreign(case, base, f, at)
    t = len(v)
    case.cover("n=%d T=%d loads=%s sn=%g transformer=%s" % (f.n, t, [int(k) for k in at], base.sn_mva, shift is not None))
    power = v * np.conj(i) * base.sn_mva
    rest = [k for k in range(f.n) if k != f.pcc]
    case.close(power[:, at_bus][:, rest], -s[:, rest], "power of every load at every step", 1e-6, atol=1e-6)
    case.close(v[:, order.index(top)], np.full(t, feed), "set voltage of the feeding bus", 1e-9)
    if shift is None:
        y = f.y(sn=base.sn_mva)
        case.close(i, v @ y.T, "currents are the admittance matrix times the voltages", 1e-9, atol=1e-10 * np.max(np.abs(y)))
    else:
        case.close(power[:, at_bus[f.pcc]], np.zeros(t), "no load behind the transformer", 1e-6, atol=1e-6)
        case.event("transformers")


@monitor(REGISTRY, quick=4, thorough=60, known="transformer-shift")
def phase_shifting(case):
    """Networks made elsewhere with a transformer that turns the phases."""
    import pandapower as pp
    shift = gen.pick(case.rng, 30., 150., -30., 330.)
    base, f, at, top, feed = foreign(case.rng, shift)
    net, v, i, s, order, at_bus = run_foreign(case, base, f, at)
    case.cover("n=%d T=%d loads=%s sn=%g shift=%g" % (f.n, len(v), [int(k) for k in at], base.sn_mva, shift))
    case.close(v[:, order.index(top)], np.full(len(v), feed), "set voltage of the feeding bus", 1e-9)
    turn = np.angle(v[:, at_bus] / feed * np.exp(1j * np.deg2rad(shift)))
    case.check(np.all(np.abs(turn) < .4), "angle behind the transformer", turn)
    y = []
    for d in (shift, 0.):
        base.trafo["shift_degree"] = d
        quiet(lambda: pp.runpp(base, numba=False, calculate_voltage_angles=True))
        k = np.array([base._pd2ppc_lookups["bus"][b] for b in order])
        y.append(base._ppc["internal"]["Ybus"].toarray()[np.ix_(k, k)])
    tol = 1e-8 * np.max(np.abs(y[0]))
    if np.allclose(i, v @ y[0].T, rtol=1e-6, atol=tol):
        rest = [k for k in range(f.n) if k != f.pcc]
        case.close((v * np.conj(i) * base.sn_mva)[:, at_bus][:, rest], -s[:, rest], "power of every load", 1e-6, atol=1e-6)
        return
    case.close(i, v @ y[1].T, "currents are an admittance matrix times the voltages", 1e-6, atol=tol)
    case.finding("transformer-shift", True, "currents at a phase-shifting transformer ignore its shift")


@monitor(REGISTRY, quick=1, thorough=6, limit=400)
def whole_day(case):
    """A day of minutes, as in every real study."""
    rng = case.rng
    f = Feeder(rng, rng.randint(2, 5))
    net = f.build(SimulatedNet)
    t = int(rng.randint(1005, 1100)) if case.tier == "quick" else 1440
    case.cover("n=%d T=%d" % (f.n, t))
    s = profile(rng, f, t)
    simulate(net, f, s, outdir(case))
    judge(case, f, net, s)


@monitor(REGISTRY, quick=28, thorough=300)
def three_phase(case):
    rng = case.rng
    f = Feeder(rng, rng.randint(2, 8), three=True, balanced=rng.rand() < .15)
    net = f.build(SimulatedNet3P)
    t = rng.randint(1, 4)
    s = profile(rng, f, t)
    before = snapshot(net)
    steps, kw = None, {}
    if rng.rand() < .3:
        steps = [int(k) for k in rng.permutation(t)[:rng.randint(1, t + 1)]]
        kw["time_steps"] = steps
    case.cover("n=%d pcc=%d T=%d sym=%d lines=%d steps=%s" % (f.n, f.pcc, t, f.sym.sum(), len(f.lines), steps))
    case.check(net.get_current_and_voltage() == (None, None), "nothing before the first simulation")
    simulate(net, f, s, outdir(case), **kw)
    unchanged(case, net, before)
    v, i = judge(case, f, net, s if steps is None else s[steps], steps)
    if rng.rand() < .4:
        simulate(net, f, s, outdir(case), **kw)
        v2, i2 = net.get_current_and_voltage()
        case.close(v2, v, "simulating again", 1e-9)
        unchanged(case, net, before)


@monitor(REGISTRY, quick=16, thorough=150)
def simulation_stage(case):
    """simulate_net returns what the network object gives, and reloading returns what was saved."""
    rng = case.rng
    three = rng.rand() < .35
    f = Feeder(rng, rng.randint(2, 7), three=three)
    net = f.build(SimulatedNet3P if three else SimulatedNet)
    net.name = "c13_%d" % case.index
    t = rng.randint(1, 4)
    s = profile(rng, f, t)
    case.cover("3ph=%s n=%d T=%d" % (three, f.n, t))
    pos = {b: i for i, b in enumerate(f.ids)}
    li = [pos[int(b)] for b in net.load.bus]
    if three:
        ai = [pos[int(b)] for b in net.asymmetric_load.bus]
        asym = [s[:, ai, k].real.copy() for k in range(3)] + [s[:, ai, k].imag.copy() for k in range(3)]
        p, q = s[:, li].sum(axis=2).real, s[:, li].sum(axis=2).imag
        fr = Frozen(p=p, q=q, a=asym)
        v, i, y = quiet(lambda: run3ph.simulate_net(net, p, q, asym, verbose=case.verbose))
        again = quiet(lambda: run3ph.simulate_net(net, None, None, None, verbose=False))
    else:
        p, q = s[:, li].real.copy(), s[:, li].imag.copy()
        fr = Frozen(p=p, q=q)
        v, i, y = quiet(lambda: run.simulate_net(net, p, q, verbose=case.verbose))
        again = quiet(lambda: run.simulate_net(net, None, None, verbose=False))
    fr.verify(case, "simulate_net")
    v0, i0 = judge(case, f, net, s)
    case.same(v, v0, "returned voltages")
    case.same(i, i0, "returned currents")
    case.close(y, net.make_y_bus(), "returned admittance", 1e-9)
    for name, a, b in zip(("voltage", "current", "admittance"), (v, i, y), again):
        case.same(b, a, "reloaded " + name)
