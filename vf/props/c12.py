"""C12: reduced networks are electrically equivalent to the full ones."""
import numpy as np
import pandapower as pp
from src.simulation.network import NetData
from src.simulation.network_3ph import NetData3P
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from src.simulation import run, run3ph
from vf.core import monitor, Frozen, dense
from vf import gen
from vf.net import Feeder

REGISTRY = []
_NETS = {}


def small_net(three):
    """A network object to call kron_reduction on."""
    if three not in _NETS:
        f = Feeder(np.random.RandomState(3), 3, three=three)
        _NETS[three] = f.build(NetData3P if three else NetData)
    return _NETS[three]


def admittance(rng, n):
    k = rng.randint(6)
    if k == 5:  # a feeder of short cables and one of very long lines
        y = np.tril(gen.laplacian(rng, n, rng.rand()), -1) * 10. ** rng.uniform(-1, 1, (n, n))
        w = np.where(rng.rand(n) < .5, 10. ** rng.uniform(-9, -5), 1)
        y = y * np.minimum(w[:, None], w)
        y = (y + y.T) * 10. ** rng.uniform(-3, 4)
        return y - np.diag(y.sum(axis=1))
    if k == 4:  # short cables and very long lines
        y = np.tril(gen.laplacian(rng, n, rng.rand()), -1) * 10. ** rng.uniform(-7.5, 0, (n, n)) * 10. ** rng.uniform(-3, 4)
        y = y + y.T
        return y - np.diag(y.sum(axis=1))
    if k == 0:
        return gen.laplacian(rng, n, rng.rand())
    if k == 1:
        return gen.laplacian(rng, n, rng.rand()) + np.diag(rng.rand(n) + 1j * rng.randn(n))
    y = rng.randn(n, n) + 1j * rng.randn(n, n)
    if k == 2:
        y = y + y.T
    return (y + 3 * n * np.exp(1j) * np.eye(n)) * 10. ** rng.uniform(-3, 4)


def as_index(rng, ix):
    ix = [int(i) for i in ix]
    return [list(ix), np.array(ix, dtype=int), tuple(ix), np.array(ix, dtype=float)][rng.randint(4)]


@monitor(REGISTRY, quick=180, thorough=6000)
def kron(case):
    rng = case.rng
    n = rng.randint(2, 14) if rng.rand() < .9 else rng.randint(14, 80)
    y = admittance(rng, n)
    r = rng.permutation(n)[:rng.randint(0, n)]
    keep = np.setdiff1d(np.arange(n), r)
    case.cover("n=%d reduced=%s" % (n, sorted(int(i) for i in r)), len(r) > 0)
    net = small_net(bool(rng.randint(2)))
    arg = np.matrix(y) if rng.rand() < .5 else gen.layout(rng, y)
    ix = as_index(rng, r)
    fr = Frozen(y=arg, ix=ix)
    got = dense(net.kron_reduction(ix, arg))
    fr.verify(case, "kron_reduction")
    case.check(got.shape == (len(keep), len(keep)), "one row per kept node", got.shape)
    # any voltages of the kept nodes, eliminated nodes without current
    vk = rng.randn(len(keep), 5) + 1j * rng.randn(len(keep), 5)
    v = np.zeros((n, 5), dtype=complex)
    v[keep] = vk
    tol = 1e-8
    if len(r):
        v[r] = np.linalg.solve(y[np.ix_(r, r)], -y[np.ix_(r, keep)] @ vk)
        tol = 1e-8 + 1e-13 * np.linalg.cond(y[np.ix_(r, r)])
    if tol > 1e-3:
        return case.event("ill conditioned")
    i = y @ v
    case.close(got @ vk, i[keep], "currents of the kept nodes, in order", tol, 1e-13 * np.max(np.abs(y)))
    row = np.max(np.abs(y[keep]) @ np.abs(v), axis=1, keepdims=True) + 0 * vk
    case.check(np.all(np.abs(got @ vk - i[keep]) <= tol * row + 1e-13 * np.max(np.abs(y))),
               "current of every kept node", got @ vk, i[keep])
    # in steps
    if len(r) > 1:
        k = rng.randint(1, len(r))
        first = r[:k]
        left = np.setdiff1d(np.arange(n), first)
        second = [int(np.where(left == j)[0][0]) for j in r[k:]]
        y1 = net.kron_reduction(as_index(rng, first), arg)
        y2 = dense(net.kron_reduction(as_index(rng, second), y1))
        case.close(y2, got, "eliminating in steps", tol, 1e-12 * np.max(np.abs(y)))
    case.close(dense(net.kron_reduction(as_index(rng, r[::-1]), arg)), got, "order of the eliminated nodes", tol, 1e-12 * np.max(np.abs(y)))


@monitor(REGISTRY, quick=48, thorough=600)
def kron_of_network(case):
    rng = case.rng
    f = Feeder(rng, rng.randint(3, 9))
    net = f.build(NetData)
    r = rng.permutation(f.n)[:rng.randint(1, f.n)]
    case.cover("n=%d reduced=%d" % (f.n, len(r)))
    got = dense(net.kron_reduction([int(i) for i in r]))
    y = f.y()
    k = np.setdiff1d(np.arange(f.n), r)
    want = y[np.ix_(k, k)] - y[np.ix_(k, r)] @ np.linalg.pinv(y[np.ix_(r, r)]) @ y[np.ix_(r, k)]
    case.close(got, want, "reduction of the network's own matrix", 1e-8, atol=1e-7 * np.max(np.abs(y)))


def foreign_net(rng, three):
    """A network whose loads are numbered independently of its buses."""
    n = rng.randint(3, 9)
    net = pp.create_empty_network()
    ids = rng.permutation(rng.choice(40, n, replace=False))
    for k in ids:
        pp.create_bus(net, 1., index=int(k), name=str(int(k)))
    pcc = int(ids[rng.randint(n)])
    pp.create_ext_grid(net, pcc)
    want = [set(int(k) for k in ids) - {pcc} for _ in range(3)]
    for k in ids:
        for _ in range(gen.pick(rng, 0, 1, 1, 2)):
            kind = rng.randint(3 if three else 2)
            val = [float(gen.pick(rng, 0., 0., .2, -.1) if rng.rand() < .9 else gen.pick(rng, 1e-7, 1e-12, -1e-9)) for _ in range(6)]
            if kind < 2:
                pp.create_load(net, int(k), val[0], val[1])
                on = [val[0] != 0 or val[1] != 0] * 3
            else:
                pp.create_asymmetric_load(net, int(k), val[0], val[1], val[2], val[3], val[4], val[5])
                on = [val[i] != 0 or val[i + 3] != 0 for i in range(3)]
            for i in range(3):
                if on[i]:
                    want[i].discard(int(k))
    return net, [int(k) for k in ids], want


@monitor(REGISTRY, quick=96, thorough=2000)
def passive_nodes(case):
    rng = case.rng
    three = rng.rand() < .5
    if rng.rand() < .5:
        f = Feeder(rng, three=three)
        cls = gen.pick(rng, NetData3P, SimulatedNet3P) if three else gen.pick(rng, NetData, SimulatedNet)
        net = f.build(cls)
        ids = f.ids
        p, q = (f.p, f.q) if three else (np.tile(f.p[:, None], 3), np.tile(f.q[:, None], 3))
        want = [{ids[i] for i in range(f.n) if i != f.pcc and p[i, ph] == 0 and q[i, ph] == 0} for ph in range(3)]
        kind = "own"
    else:
        base, ids, want = foreign_net(rng, three)
        net = NetData3P({}, other=base) if three else NetData([], [], base)
        kind = "imported"
    case.cover("%s 3ph=%s n=%d passive=%s" % (kind, three, len(ids), [len(w) for w in want]), any(want))
    got = net.give_passive_nodes()
    case.check(len(got) == 3, "one list per phase", got)
    for ph in range(3):
        g = [int(k) for k in got[ph]]
        case.check(sorted(g) == sorted(want[ph]), "passive nodes of phase %d" % ph, g, sorted(want[ph]))


def circuit_data(rng, y, fixed, passive, hidden, t=12):
    """Measurements of a linear circuit: feeding node(s) at constant voltage, passive nodes without current, hidden ones
    with an incremental admittance equal to their mean current over mean voltage."""
    n = len(y)
    shunt = np.zeros(n, dtype=complex)
    vm = 1 + .02 * (rng.randn(n) + 1j * rng.randn(n))
    vm = vm * np.exp(1j * rng.uniform(-np.pi, np.pi))
    im = .3 * (rng.randn(n) + 1j * rng.randn(n))
    im[passive] = 0
    for h in hidden:
        if h not in passive:
            im[h] = vm[h] * np.mean(np.abs(np.diag(y))) * .05 * np.exp(1j * rng.uniform(-3, 3))
            shunt[h] = im[h] / vm[h]
    red = sorted(set(passive) | set(hidden))
    free = [i for i in range(n) if i not in red]
    dv = np.zeros((t, n), dtype=complex)
    dv[:, free] = .01 * (rng.randn(t, len(free)) + 1j * rng.randn(t, len(free)))
    dv[:, fixed] = 0
    dv -= dv.mean(axis=0)
    if red:
        yr = y[np.ix_(red, red)] + np.diag(shunt[red])
        dv[:, red] = np.linalg.solve(yr, -y[np.ix_(red, free)] @ dv[:, free].T).T
    di = dv @ y.T
    return vm + dv, im + di, shunt, red


@monitor(REGISTRY, quick=96, thorough=1200)
def reduce_single_phase(case):
    rng = case.rng
    f = Feeder(rng, rng.randint(3, 10))
    net = f.build(SimulatedNet)
    y = f.y()
    lap = rng.rand() < .4
    passive = [i for i in range(f.n) if i != f.pcc and f.p[i] == 0]
    loaded = [i for i in range(f.n) if i != f.pcc and f.p[i] != 0]
    hidden = [int(i) for i in rng.permutation(loaded)[:rng.randint(0, max(1, len(loaded)))]] if rng.rand() < .6 else []
    if rng.rand() < .3 and passive:
        hidden.append(passive[0])
    with_pcc = rng.rand() < .6
    case.cover("n=%d pcc=%d lap=%s pcc hidden=%s passive=%s hidden=%s" % (
        f.n, f.pcc, lap, with_pcc, passive, sorted(hidden)))
    v, i, shunt, red = circuit_data(rng, y, [f.pcc], passive, [h for h in hidden if h not in passive])
    hid = [f.ids[h] for h in hidden] + ([f.ids[f.pcc]] if with_pcc else [])
    hid = [hid[k] for k in rng.permutation(len(hid))]
    fr = Frozen(v=v, i=i, hid=hid)
    idx, got = run.reduce_network(net, v, i, hid, lap, verbose=case.verbose)
    fr.verify(case, "reduce_network")
    judge(case, idx, got, y, v, i, shunt, red, [] if lap else [f.pcc])
    if not lap:
        case.check(f.pcc in [int(k) for k in idx], "the feeding bus is removed")


def judge(case, idx, got, y, v, i, shunt, red, fixed):
    n = len(y)
    got = dense(got)
    out = sorted(set(int(k) for k in idx))
    case.check(out == sorted(set(red) | set(fixed)), "removed columns", out, sorted(set(red) | set(fixed)))
    case.check(all(0 <= k < n for k in out), "valid columns", out)
    kv, ki = np.delete(v, idx, axis=1), np.delete(i, idx, axis=1)
    case.check(got.shape == (kv.shape[1],) * 2, "matrix matches the remaining columns", got.shape, kv.shape)
    if not kv.shape[1]:
        return
    cv, ci = kv - kv.mean(axis=0), ki - ki.mean(axis=0)
    case.close(cv @ got.T, ci, "centred voltages map to centred currents", 1e-7, atol=1e-9)
    keep = [k for k in range(n) if k not in out]
    full = y + np.diag(shunt)
    want = full[np.ix_(keep, keep)]
    if red:
        want = want - full[np.ix_(keep, red)] @ np.linalg.solve(full[np.ix_(red, red)], full[np.ix_(red, keep)])
    case.close(got, want, "equivalent matrix", 1e-7)


@monitor(REGISTRY, quick=84, thorough=900)
def reduce_three_phase(case):
    rng = case.rng
    f = Feeder(rng, rng.randint(3, 8), three=True, empty=gen.pick(rng, .2, .5, .8))
    net = f.build(SimulatedNet3P)
    y = f.y3()
    single = rng.rand() < .5
    pas = np.array([[i != f.pcc and f.p[i, ph] == 0 for ph in range(3)] for i in range(f.n)])
    if not single:
        pas = np.tile(pas.all(axis=1)[:, None], 3)
    loaded = [i for i in range(f.n) if i != f.pcc and (f.p[i] != 0).all()]
    hidden = [int(i) for i in rng.permutation(loaded)[:rng.randint(0, max(1, len(loaded)))]] if rng.rand() < .6 else []
    passive = [3*i + ph for i in range(f.n) for ph in range(3) if pas[i, ph]]
    hid3 = [3*i + ph for i in hidden for ph in range(3)]
    fixed = [3*f.pcc + ph for ph in range(3)]
    case.cover("n=%d pcc=%d single=%s passive=%s hidden=%s" % (f.n, f.pcc, single, passive, hidden))
    v, i, shunt, red = circuit_data(rng, y, fixed, passive, hid3)
    hid = [f.ids[h] for h in hidden]
    if rng.rand() < .3:
        hid.append(f.ids[f.pcc])
    fr = Frozen(v=v, i=i, hid=hid)
    idx, got = run3ph.reduce_network(net, v, i, hid, False, single, verbose=case.verbose)
    fr.verify(case, "reduce_network")
    judge(case, idx, got, y, v, i, shunt, red, fixed)
