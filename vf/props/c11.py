"""C11: networks and their admittance matrices describe the same circuit."""
import copy
import numpy as np
import pandapower as pp
from src.simulation.network import NetData
from src.simulation.network_3ph import NetData3P
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from src.simulation.lines import LineData
from vf.core import monitor, dense
from vf import gen
from vf.net import Feeder

REGISTRY = []


def structure(case, y, what):
    s = np.max(np.abs(y))
    case.close(y, y.T, what + ": symmetric", 1e-10)
    case.check(np.max(np.abs(y.sum(axis=1))) < 1e-9 * s * len(y), what + ": zero row sums", y.sum(axis=1))


def empty_net(rng):
    """An empty network to start from, possibly with another base power."""
    if rng.rand() < .5:
        return None, 1.
    sn = float(gen.pick(rng, 1., 100., .5))
    return pp.create_empty_network(sn_mva=sn), sn


@monitor(REGISTRY, quick=64, thorough=1500)
def nodal_matrix(case):
    rng = case.rng
    f = Feeder(rng, gen.pick(rng, None, None, None, rng.randint(12, 60)))
    if rng.rand() < .3:  # cables of a few metres next to very long lines
        u = rng.uniform(0, 4)
        for ln in f.lines:
            k = 10. ** rng.uniform(-u, u)
            ln[3], ln[4] = ln[3] * k, ln[4] * k
        f.p, f.q = 0 * f.p, 0 * f.q
    elif rng.rand() < .3:  # loads that follow the voltage are not part of the lines
        f.voltage_dependent(rng)
    cls = NetData if rng.rand() < .5 else SimulatedNet
    other, sn = empty_net(rng)
    for ln in f.lines[f.n - 1:]:
        ln[5] = int(rng.rand() < .6)
    route = gen.pick(rng, "constructor", "two steps", "one by one", "line values", "mixed")
    case.cover("%s %s n=%d pcc=%d lines=%d out=%d sn=%g" % (
        cls.__name__, route, f.n, f.pcc, len(f.lines), sum(ln[5] == 0 for ln in f.lines), sn))
    ls = [f.line_data(ln) for ln in f.lines]
    if route == "constructor":
        net = cls(f.buses(), ls, other)
    elif route == "two steps":
        net = cls(None, None, other) if rng.rand() < .5 else cls(other=other)
        r = net.create_buses(f.buses())
        case.check(r is net, "create_buses returns the network")
        k = rng.randint(len(ls) + 1)
        case.check(net.create_lines(ls[:k]) is net, "create_lines returns the network")
        net.create_lines(ls[k:])
    elif route == "one by one":
        net = cls([], [], other)
        for b in f.buses():
            net.create_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV)
        for li in ls:
            net.create_lines([li])
    else:
        net = cls(f.buses(), None, other)
        for ln, li in zip(f.lines, ls):
            if ln[5] == 0:
                continue
            if route == "mixed" and rng.rand() < .5:
                net.create_lines([li])
            else:
                net.create_line(f.ids[ln[0]], f.ids[ln[1]], ln[3], ln[4], ln[2])
    case.check([int(b) for b in net.bus.index] == f.ids, "buses keep the declared order", list(net.bus.index))
    got = dense(net.make_y_bus())
    case.close(got, f.y(sn=sn), "nodal matrix of the in-service lines", 1e-9)
    structure(case, got, "nodal matrix")
    case.same(dense(net.make_y_bus()), got, "asking again")


@monitor(REGISTRY, quick=40, thorough=1000)
def orientation_and_order(case):
    """Reversing lines or changing their order or the bus order only permutes the matrix."""
    rng = case.rng
    f = Feeder(rng, rng.randint(3, 9))
    case.cover("n=%d lines=%d" % (f.n, len(f.lines)))
    y = dense(f.build(NetData).make_y_bus())
    ls = [copy.copy(f.lines[k]) for k in rng.permutation(len(f.lines))]
    for ln in ls:
        if rng.rand() < .5:
            ln[0], ln[1] = ln[1], ln[0]
    bs = f.buses()
    perm = rng.permutation(f.n)
    net = NetData([bs[k] for k in perm], [f.line_data(ln) for ln in ls])
    case.close(dense(net.make_y_bus()), y[np.ix_(perm, perm)], "permuted buses, reversed and reordered lines", 1e-10)


@monitor(REGISTRY, quick=64, thorough=1500)
def matrix_round_trip(case):
    rng = case.rng
    f = Feeder(rng, gen.pick(rng, None, None, None, rng.randint(12, 40)))
    other, sn = empty_net(rng)
    f.p, f.q = 0 * f.p, 0 * f.q  # a weak network has no power flow with loads
    y = gen.laplacian(rng, f.n, gen.pick(rng, 0, .4, 1)) * 10. ** rng.uniform(-8, 5)
    if rng.rand() < .4:  # strong and weak connections in one network
        w = 10. ** rng.uniform(-5, 0, y.shape)
        y = np.tril(y, -1) * w
        y = y + y.T
        y -= np.diag(y.sum(axis=1))
    kind = gen.pick(rng, "array", "matrix", "fortran")
    case.cover("n=%d %s sn=%g contiguous=%s" % (f.n, kind, sn, f.ids == list(range(1, f.n + 1))))
    yin = {"array": np.array(y), "matrix": np.matrix(y), "fortran": np.asfortranarray(y)}[kind]
    net = NetData(f.buses(), [], other)
    r = net.create_lines_from_ybus(yin)
    case.check(r is net, "returns the network")
    case.same(np.asarray(yin), y, "the given matrix is not modified")
    got = dense(net.make_y_bus())
    case.close(got, y, "recomputed matrix", 1e-9)
    off = ~np.eye(f.n, dtype=bool)
    case.check(np.all(np.abs(got - y)[off] <= 1e-9 * np.abs(y)[off]), "every entry of the recomputed matrix", got, y)
    # lines exist exactly where the matrix has entries
    pairs = {tuple(sorted((int(a), int(b)))) for a, b in zip(net.line.from_bus, net.line.to_bus)}
    want = {tuple(sorted((f.ids[i], f.ids[j]))) for i in range(f.n) for j in range(i) if y[i, j] != 0}
    case.check(pairs == want and len(net.line) == len(want), "one line per connected pair", sorted(pairs), sorted(want))
    # rebuilding from the recomputed matrix of a network built from line data
    g = f.build(NetData)
    y1 = g.make_y_bus()
    h = NetData(f.buses(), []).create_lines_from_ybus(y1)
    case.close(dense(h.make_y_bus()), f.y(), "matrix of the rebuilt feeder", 1e-9)


def connected(n, lines, keep):
    keep = set(keep)
    seen, todo = set(), [next(iter(keep))]
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        for ln in lines:
            if ln[5] > 0 and ln[0] in keep and ln[1] in keep:
                if ln[0] == a:
                    todo.append(ln[1])
                if ln[1] == a:
                    todo.append(ln[0])
    return seen == keep


@monitor(REGISTRY, quick=64, thorough=1500)
def removal(case):
    rng = case.rng
    three = rng.rand() < .3
    f = Feeder(rng, rng.randint(3, 9), mesh=True, three=three)
    net = f.build((NetData3P if three else NetData) if rng.rand() < .5 else (SimulatedNet3P if three else SimulatedNet))
    line_ids = [int(i) for i in net.line.index]
    case.check(len(line_ids) == len(f.lines), "one element per line")
    lines = {i: ln for i, ln in zip(line_ids, f.lines)}
    keep = list(range(f.n))
    hist = []

    def expected():
        g = copy.copy(f)
        g.lines = [ln for ln in lines.values() if ln[0] in keep and ln[1] in keep]
        if three:
            return g.y3().reshape(f.n, 3, f.n, 3)[np.ix_(keep, range(3), keep, range(3))].reshape(3*len(keep), -1)
        return g.y()[np.ix_(keep, keep)]

    for _ in range(rng.randint(1, 5)):
        op = gen.pick(rng, "line", "lines", "bus", "buses")
        if rng.rand() < .2:  # a power flow solved on the network itself in between
            (pp.runpp_3ph if three else pp.runpp)(net, numba=False)
            case.event("power flows in between")
        if op in ("line", "lines"):
            cand = list(rng.permutation(list(lines)))
            out = []
            for c in cand:
                rest = [ln for k, ln in lines.items() if k not in out + [c]]
                if connected(f.n, rest, keep):
                    out.append(int(c))
                if op == "line" or len(out) >= 3:
                    break
            if not out or not connected(f.n, [ln for k, ln in lines.items() if k not in out], keep):
                continue
            if op == "line":
                net.remove_line(out[0])
            else:
                net.remove_lines(out)
            for c in out:
                del lines[c]
        else:
            out = []
            for c in rng.permutation(keep):
                rest = [k for k in keep if k not in out + [c]]
                if c != f.pcc and len(rest) >= 2 and connected(f.n, list(lines.values()), rest):
                    out.append(int(c))
                if op == "bus" or len(out) >= 2:
                    break
            if not out:
                continue
            if op == "bus":
                net.remove_bus(f.ids[out[0]])
            else:
                net.remove_buses([f.ids[k] for k in out])
            keep = [k for k in keep if k not in out]
            for k in [k for k, ln in lines.items() if ln[0] not in keep or ln[1] not in keep]:
                del lines[k]
        hist.append("%s:%d" % (op, len(out)))
        case.check([int(b) for b in net.bus.index] == [f.ids[k] for k in keep], "remaining buses in order",
                   list(net.bus.index))
        case.check(sorted(int(i) for i in net.line.index) == sorted(lines), "remaining lines", list(net.line.index))
        got = dense(net.make_y_bus())
        want = expected()
        if three:
            compare3(case, f, got, want, keep, "after removing")
        else:
            case.close(got, want, "matrix after removing " + op, 1e-9)
        case.event("removals")
    case.cover("%s n=%d %s" % ("3ph" if three else "1ph", f.n, ",".join(hist)), bool(hist))


def compare3(case, f, got, want, keep, what):
    """The external grid's own impedance appears in the feeding bus' diagonal block and is left out."""
    case.check(got.shape == want.shape, "three rows per bus", got.shape)
    g, w = got.copy(), want.copy()
    if f.pcc in keep:
        k = keep.index(f.pcc)
        g[3*k:3*k+3, 3*k:3*k+3] = w[3*k:3*k+3, 3*k:3*k+3] = 0
    case.close(g, w, "three-phase matrix " + what, 1e-8)
    m = [i for i in range(len(keep)) if keep[i] != f.pcc]
    ix = np.array([3*i + p for i in m for p in range(3)], dtype=int)
    rows = got[ix].reshape(len(ix), len(keep), 3).sum(axis=1)
    case.check(np.max(np.abs(rows)) < 1e-7 * np.max(np.abs(want)), "zero row sums per phase", rows)


@monitor(REGISTRY, quick=48, thorough=900)
def three_phase_matrix(case):
    rng = case.rng
    f = Feeder(rng, three=True)
    cls = NetData3P if rng.rand() < .5 else SimulatedNet3P
    for ln in f.lines[f.n - 1:]:
        ln[5] = int(rng.rand() < .6)
    route = gen.pick(rng, "constructor", "create_lines", "create_line")
    case.cover("%s %s n=%d pcc=%d lines=%d types=%d" % (cls.__name__, route, f.n, f.pcc, len(f.lines), len(f.types)))
    if route == "constructor":
        net = f.build(cls)
    else:
        base = cls(f.std_types(), f.buses(), [])
        if route == "create_lines":
            base.create_lines([f.line_data(ln) for ln in f.lines])
        else:
            for ln in f.lines:
                if ln[5]:
                    base.create_line(f.ids[ln[0]], f.ids[ln[1]], ln[2], ln[6])
        net = base
    compare3(case, f, dense(net.make_y_bus()), f.y3(), list(range(f.n)), "of the sequence line matrices")
    # a network made from another one is the same circuit
    if rng.rand() < .3:
        h = cls(f.std_types(), other=net.deepcopy())
        compare3(case, f, dense(h.make_y_bus()), f.y3(), list(range(f.n)), "of a copied network")


TEMPLATES = [("net_templates", k) for k in (
    "bolognani56", "bolognani33", "cigre_mv_feeder1", "cigre_mv_feeder2", "cigre_mv_feeder3")] + [
    ("net_templates_3ph", "ieee123center")]


@monitor(REGISTRY, quick=8, thorough=24)
def documented_templates(case):
    import importlib
    m = importlib.import_module("src.simulation.net_templates")
    names = sorted(n[:-4] for n in dir(m) if n.endswith("_net") and hasattr(m, n[:-4] + "_bus"))
    names = [n for n in names if isinstance(getattr(m, n + "_bus"), list)]
    case.check(len(names) >= 2, "templates are offered", names)
    name = names[case.index % len(names)]
    case.cover(name)
    bus, ls = getattr(m, name + "_bus"), getattr(m, name + "_net")
    bus = copy.deepcopy(bus)
    ids = [b.id for b in bus]
    y = np.zeros((len(ids), len(ids)), dtype=complex)
    for li in ls:
        if li.status > 0:
            v = bus[0].baseKV ** 2 / complex(li.R, li.X)
            a, b = ids.index(li.start_bus), ids.index(li.end_bus)
            y[a, a] += v
            y[b, b] += v
            y[a, b] -= v
            y[b, a] -= v
    for k in range(2):
        net = NetData(bus, ls)
        case.close(dense(net.make_y_bus()), y, "%s: nodal matrix, build %d" % (name, k), 1e-8)
