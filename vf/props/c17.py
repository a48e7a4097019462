"""C17: load series respect nominal powers, time windows and seeds."""
from pathlib import Path
import numpy as np
from conf import conf, simulation
from src.simulation.load_profile import load_profile_from_numpy, load_profile_from_csv, generate_gaussian_load
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from src.simulation import run, run3ph
from vf.core import monitor, Frozen, dense
from vf import gen
from vf.net import Feeder
from vf.props.c16 import quiet, Config

REGISTRY = []
SIGMAS = 7.
WEEK = 7 * 24 * 60


def households(rng, rows, m):
    """Linearly independent positive profiles, in watts, so that sums of households can be decoded."""
    a = rng.uniform(50, 400, (rows, m)) * rng.uniform(.5, 2, m)
    return np.round(a, 3)


def level(profile):
    """Mean over the households of their 90th percentile, in MW."""
    return np.mean(np.percentile(np.abs(profile), 90, axis=0)) / 1e6


def decode(case, series, window, what):
    """Counts of each household in every column of the series."""
    c, _, rank, _ = np.linalg.lstsq(window / 1e6, series, rcond=None)
    case.check(rank == window.shape[1], "decodable workload")
    counts = np.round(c)
    case.close(window / 1e6 @ counts, series, what + ": sums of whole household profiles of the windows, in order", 1e-8, atol=1e-12)
    case.check(np.all(counts >= 0), what + ": households are added", counts)
    return counts.astype(int)


def judge(case, series, window, nominal, what):
    counts = decode(case, dense(series), window, what)
    want = np.asarray(nominal) / level(window)
    got = counts.sum(axis=0)
    case.check(np.all(np.abs(got - want) <= .5 + 1e-6), what + ": number of households for the nominal powers", got, want)
    case.event("households decoded", int(got.sum()))
    return counts


def nominals(rng, n, lvl):
    k = rng.randint(1, 30, n) + rng.uniform(-.4, .4, n)
    k[rng.rand(n) < .2] = 0
    return k * lvl


@monitor(REGISTRY, quick=96, thorough=2000)
def readers(case):
    """Profiles of several windows are summed; the text reader selects what the array reader selects."""
    rng = case.rng
    m, rows = rng.randint(2, 9), rng.randint(30, 120)
    p, q = households(rng, rows, m), households(rng, rows, m)
    if rng.rand() < .3:
        q = q * rng.uniform(.1, 3)
    if rng.rand() < .4:  # capacitive households, and power flowing back from roofs
        q = q * np.where(rng.rand(m) < .5, -1, 1) * np.where(rng.rand(rows, m) < gen.pick(rng, 0, .2), -1, 1)
        if rng.rand() < .5:
            p = p * np.where(rng.rand(rows, m) < .2, -1, 1)
    q = np.round(q, 3)
    w = rng.randint(1, 4)
    length = rng.randint(m + 1, rows // 2)
    lens = length if rng.rand() < .5 else rng.randint(m + 1, rows // 2, w)
    start = np.array([rng.randint(0, rows - int(np.broadcast_to(lens, w)[i]) + 1) for i in range(w)])
    n, three = rng.randint(1, 7), bool(rng.randint(2))
    rowsel = np.concatenate([np.arange(s, s + l) for s, l in zip(start, np.broadcast_to(lens, w))])
    wp, wq = p[rowsel], q[rowsel]
    refs = [nominals(rng, n, level(wq if i % 2 else wp)) for i in range(6 if three else 2)]
    case.cover("m=%d rows=%d windows=%d n=%d 3ph=%s" % (m, rows, w, n, three))
    d = Path(case.workdir)
    fp, fq = d / "p.npy", d / "q.npy"
    np.save(fp, p), np.save(fq, q)
    kw = dict(zip(("load_p_rb", "load_q_rb", "load_p_rc", "load_q_rc"), refs[2:]))
    fr = Frozen(refs=refs, start=start, lens=np.array(lens))
    seed = rng.randint(2 ** 31 - 1)
    np.random.seed(seed)
    larg = np.array(lens, dtype=np.int64)
    got = quiet(lambda: load_profile_from_numpy(gen.pick(rng, str(fp), fp), fq, start, larg, refs[0], refs[1], verbose=bool(rng.randint(2)), **kw))
    fr.verify(case, "load_profile_from_numpy")
    case.check(len(got) == (6 if three else 2), "number of series", len(got))
    order = (0, 2, 4, 1, 3, 5) if three else (0, 1)             # active powers of all phases, then reactive ones
    for g, i in zip(got, order):
        judge(case, g, wq if i % 2 else wp, refs[i], "%s power of phase %s" % ("reactive" if i % 2 else "active", "abc"[i // 2]))
    np.random.seed(seed)
    again = quiet(lambda: load_profile_from_numpy(fp, fq, start, larg, refs[0], refs[1], **kw))
    for a, b in zip(got, again):
        case.same(b, a, "same seed, same households")
    # the text files
    for f, a in ((d / "p.csv", p), (d / "q.csv", q)):
        np.savetxt(f, a, fmt="%.3f", delimiter=";")
    np.random.seed(seed)
    text = quiet(lambda: load_profile_from_csv(str(d / "p.csv"), str(d / "q.csv"), start, rows - start - np.broadcast_to(lens, w),
                                               refs[0], refs[1], verbose=bool(rng.randint(2)), **kw))
    for a, b, i in zip(text, got, order):
        judge(case, a, wq if i % 2 else wp, refs[i], "text reader")
        case.close(a, b, "the text reader selects what the array reader selects", 1e-9)


@monitor(REGISTRY, quick=38, thorough=400)
def household_choice(case):
    """Every household can be chosen, none is preferred, and loads choose independently."""
    rng = case.rng
    m, rows = rng.randint(2, 8), 40
    p, q = households(rng, rows, m), households(rng, rows, m)
    d = Path(case.workdir)
    np.save(d / "p.npy", p), np.save(d / "q.npy", q)
    n, k = 40, 60
    case.cover("m=%d" % m)
    refs = np.full(n, k * level(p)), np.full(n, k * level(q))
    np.random.seed(rng.randint(2 ** 31 - 1))
    gp, gq = load_profile_from_numpy(d / "p.npy", d / "q.npy", np.array([0]), np.array(rows), *refs)
    for g, w, what in ((gp, p, "active"), (gq, q, "reactive")):
        c = judge(case, g, w, refs[0] if w is p else refs[1], what)
        tot = c.sum(axis=1)
        sd = np.sqrt(n * k * (1. / m) * (1 - 1. / m))
        case.check(np.all(np.abs(tot - n * k / m) < 6 * sd), what + ": households are equally likely", tot)
        case.check(len({tuple(x) for x in c.T}) > 1, what + ": loads choose independently")


def judge_gauss(case, x, nominal, rel, what):
    x = dense(x)
    t = len(x)
    nominal = np.asarray(nominal, dtype=float)
    zero = nominal == 0
    case.check(not np.any(x[:, zero]), what + ": no power where none is nominal")
    sd = np.abs(nominal[~zero]) * rel
    if not len(sd):
        return
    if rel == 0:
        case.close(x[:, ~zero], np.tile(nominal[~zero], (t, 1)), what + ": constant", 1e-12)
        return
    z = (x[:, ~zero] - nominal[~zero]) / sd
    case.check(np.max(np.abs(z.mean(axis=0))) < SIGMAS / np.sqrt(t), what + ": nominal mean", z.mean(axis=0))
    s = np.sqrt(np.mean(z ** 2, axis=0))
    case.check(np.max(np.abs(s - 1)) < SIGMAS / np.sqrt(2 * t), what + ": declared deviation", s)
    c = z.T @ z / t
    np.fill_diagonal(c, 0)
    case.check(np.max(np.abs(c)) < SIGMAS / np.sqrt(t), what + ": independent loads", c)
    if t > 10:
        a = np.mean(z[1:] * z[:-1], axis=0)
        case.check(np.max(np.abs(a)) < SIGMAS / np.sqrt(t - 1), what + ": independent in time", a)
    k = np.mean(np.abs(z) < .6745)
    case.check(abs(k - .5) < SIGMAS * .5 / np.sqrt(z.size), what + ": Gaussian quartiles", k)
    case.event("gaussian samples judged", z.size)


@monitor(REGISTRY, quick=128, thorough=2000)
def gaussian(case):
    rng = case.rng
    n, t = rng.randint(1, 7), int(gen.pick(rng, 400, 1440, 4000))
    rel = float(gen.pick(rng, .1, .5, 0., 1., .02, 1))
    three = bool(rng.randint(2))
    refs = []
    for _ in range(6 if three else 2):
        r = rng.uniform(.1, 5, n) * (10. ** rng.randint(-3, 3))
        sgn = gen.pick(rng, "positive", "mixed", "negative", "integers")
        if sgn != "positive":
            r = r * (-1 if sgn == "negative" else rng.choice([-1, 1], n))
        if sgn == "integers":
            r = np.round(3 * r).astype(int)
        r[rng.rand(n) < .2] = 0
        refs.append(r)
    case.cover("n=%d t=%d rel=%g 3ph=%s" % (n, t, rel, three))
    fr = Frozen(refs=refs)
    seed = rng.randint(2 ** 31 - 1)
    np.random.seed(seed)
    got = generate_gaussian_load(rel, t, *refs)
    fr.verify(case, "generate_gaussian_load")
    case.check(len(got) == len(refs), "number of series", len(got))
    for g in got:
        case.check(dense(g).shape == (t, n), "one row per step, one column per load", dense(g).shape)
    order = (0, 2, 4, 1, 3, 5) if three else (0, 1)
    for g, i in zip(got, order):
        judge_gauss(case, g, refs[i], rel, "%s power of phase %s" % ("reactive" if i % 2 else "active", "abc"[i // 2]))
    if rel:
        live = [(dense(g) - refs[i]) / np.abs(refs[i] * rel) for g, i in zip(got, order) if np.all(refs[i])]
        for a in range(len(live)):
            for b in range(a):
                case.check(np.max(np.abs(live[a].T @ live[b] / t)) < SIGMAS / np.sqrt(t), "independent phases and powers")
    np.random.seed(seed)
    for a, b in zip(generate_gaussian_load(rel, t, *refs), got):
        case.same(a, b, "same seed, same loads")


def stage(case, three):
    rng = case.rng
    f = Feeder(rng, rng.randint(2, 7), three=three)
    net = f.build(SimulatedNet3P if three else SimulatedNet)
    net.name = "c17_%d" % case.index
    if not three and rng.rand() < .3:   # loads may be numbered independently of their buses
        net.load.index = [int(k) for k in rng.permutation(rng.choice(70, len(net.load), replace=False))]
    mode = gen.pick(rng, "profiles", "profiles", "gaussian")
    weeks = np.sort(rng.choice(3, rng.randint(1, 3), replace=False))
    if rng.rand() < .3:
        weeks = weeks[::-1].copy()
    # any number of days, in equal parts of the chosen weeks
    days = int(rng.randint(1, 2 * len(weeks) + 1)) if mode == "profiles" else 1
    pos = {b: i for i, b in enumerate(f.ids)}
    li = [pos[int(b)] for b in net.load.bus]
    ai = [pos[int(b)] for b in net.asymmetric_load.bus] if three else []
    nodes = gen.pick(rng, None, [], [int(x) for x in rng.choice(f.ids, rng.randint(1, f.n + 1), replace=False)], list(f.ids))
    a = float(gen.pick(rng, .84, 0., 1., rng.rand()))
    case.cover("3ph=%s %s n=%d weeks=%s days=%d constant=%s a=%g" % (three, mode, f.n, weeks.tolist(), days,
               "none" if nodes is None else len(nodes), a))
    per = days * 24 * 60 // len(weeks)
    if mode == "profiles":
        m = 5
        p, q = households(rng, 2 * WEEK + per + rng.randint(3), m), households(rng, 2 * WEEK + per + rng.randint(3), m)
        q = q[:len(p)] if len(q) > len(p) else np.vstack((q, q[:len(p) - len(q)]))
        d = Path(case.workdir)
        scale = max(1e-9, np.abs(f.p).max()) * 1e6 / 300 / float(gen.pick(rng, 8, 3, 20))    # some households per load
        p, q = p * scale, q * scale
        np.save(d / "p.npy", p), np.save(d / "q.npy", q)
        sel = np.concatenate([np.arange(w * WEEK, w * WEEK + per) for w in weeks])
        params = (d / "p.npy", d / "q.npy", weeks, days, nodes)
        q_abs = np.all(f.q >= 0)
        case.check(q_abs, "workload has consuming loads")
    else:
        rel = float(gen.pick(rng, .1, .5, 1.))
        params = (None, None, rel, days, nodes)
    mod = run3ph if three else run
    seed = int(rng.randint(2 ** 31 - 1))
    before = {t: net[t].copy(deep=True) for t in ("load", "asymmetric_load", "bus")}
    with Config(conf, seed=seed), Config(simulation, load_constantness=a):
        got = quiet(lambda: mod.generate_loads(net, params, verbose=bool(rng.randint(2))))
        again = quiet(lambda: mod.generate_loads(net, params, verbose=False))
    loaded = quiet(lambda: mod.generate_loads(net, None, verbose=bool(rng.randint(2))))
    for t, v in before.items():
        case.check(v.equals(net[t]), "network table %s is unchanged" % t)
    flat = lambda r: ([dense(r[0]), dense(r[1])] + ([dense(x) for x in r[2]] if three else []) + [np.asarray(r[-1])])
    got, again, loaded = flat(got), flat(again), flat(loaded)
    for x, y, z in zip(got, again, loaded):
        case.same(y, x, "same seed, same loads")
        case.same(z, x, "reloading returns what was saved")
    times = got[-1].squeeze()
    case.check(times.ndim == 1 and len(times) == days * 1440 and all(len(x) == len(times) for x in got[:-1]),
               "one time stamp per row", times.shape, [x.shape for x in got])
    case.same(times, np.arange(days * 1440) * 60, "one row per minute")
    pairs = [(got[0], f.p[li] if not three else f.p[li][:, 0], 0, li), (got[1], f.q[li] if not three else f.q[li][:, 0], 1, li)]
    if three:
        # a symmetric load is declared with its three-phase power
        pairs = [(got[0], net.load.p_mw.values, 0, li), (got[1], net.load.q_mvar.values, 1, li)]
        pairs += [(got[2 + i], (f.q if i >= 3 else f.p)[ai, i % 3], int(i >= 3), ai) for i in range(6)]
    for x, nom, r, idx in pairs:
        what = "reactive" if r else "active"
        case.check(x.shape[1] == len(nom), "one column per load")
        const = np.array([nodes is not None and f.ids[i] in nodes for i in idx], dtype=bool)
        share = np.where(const, a, 0.)
        x = x - share * nom
        full = share > 1 - 1e-12
        case.close(x[:, full], np.zeros((len(x), full.sum())), what + " power of constant nodes is nominal", 0, atol=1e-12 * (1 + np.abs(nom).max(initial=0)))
        x = x[:, ~full] / (1 - share[~full])
        if not x.shape[1]:
            continue
        nom = np.asarray(nom)[~full]
        if mode == "profiles":
            judge(case, x, (q if r else p)[sel], nom, what)
        else:
            near = np.where(np.abs(nom) > 0, nom, 0)
            x = np.where(near == 0, np.round(x, 12), x)
            judge_gauss(case, x, near, rel, what)


@monitor(REGISTRY, quick=51, thorough=500)
def stage_single_phase(case):
    stage(case, False)


@monitor(REGISTRY, quick=51, thorough=400)
def stage_three_phase(case):
    stage(case, True)


@monitor(REGISTRY, quick=10, thorough=40)
def seeds(case):
    """Different configured seeds give different loads; the state of the generator does not matter."""
    rng = case.rng
    three = bool(case.index % 2)
    f = Feeder(rng, 5, three=three, empty=0)
    net = f.build(SimulatedNet3P if three else SimulatedNet)
    net.name = "c17_seed_%d" % case.index
    mod = run3ph if three else run
    case.cover("3ph=%s" % three)
    out = []
    for s in (11, 12, 11):
        np.random.seed(rng.randint(10000))
        with Config(conf, seed=s):
            r = quiet(lambda: mod.generate_loads(net, (None, None, .3, 1, None), verbose=False))
            out.append(np.hstack([dense(r[0]), dense(r[1])] + ([dense(x) for x in r[2]] if three else [])))
    case.same(out[2], out[0], "the configured seed decides")
    case.check(np.any(out[1] != out[0]), "another seed gives other loads")
