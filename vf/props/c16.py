"""C16: resampling, block averaging and the measurement stage."""
import contextlib
import io
import numpy as np
from conf import conf, simulation
from src.simulation.noise import filter_and_resample_measurement, add_polar_noise_to_measurement
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from src.simulation import run, run3ph
from vf.core import monitor, Frozen, dense
from vf import gen
from vf.net import Feeder

REGISTRY = []
SIGMAS = 7.


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn()


def averaged(z, old, new, k):
    x = np.array([np.interp(new, old, z[:, i].real) + 1j * np.interp(new, old, z[:, i].imag) for i in range(z.shape[1])]).T
    rows = len(new) // k
    return x[:rows * k].reshape(rows, k, -1).mean(axis=1)


def grid(rng, t):
    old = np.sort(rng.uniform(0, 10, t))
    old[0] = 0
    if rng.rand() < .5:
        old = np.arange(t) * 1.
    if np.any(np.diff(old) <= 1e-6):
        old = np.arange(t) * .5
    return old


@monitor(REGISTRY, quick=120, thorough=5000)
def block_average(case):
    rng = case.rng
    t, n = rng.randint(2, 12), rng.randint(1, 6)
    old = grid(rng, t)
    m = rng.randint(1, 60)
    if case.index % 12 == 11:  # real sizes
        t, n, m = rng.randint(50, 400), rng.randint(6, 30), rng.randint(300, 6000)
        old = grid(rng, t)
    new = np.linspace(old[0], old[-1], m) if rng.rand() < .6 else np.sort(rng.uniform(old[0], old[-1], m))
    k = rng.randint(1, m + 1) if rng.rand() < .3 else rng.randint(1, min(m, gen.pick(rng, 6, 6, 60)) + 1)
    kind = gen.pick(rng, "any", "constant", "linear", "one channel", "integer")
    z = gen.cplx(rng, (t, n), "gauss")
    if kind == "constant":
        z = np.tile(z[:1], (t, 1))
    elif kind == "linear":
        z = z[:1] + np.outer(old, rng.randn(n) + 1j * rng.randn(n))
    elif kind == "one channel":
        c = rng.randint(n)
        z[:, np.arange(n) != c] = 0
    elif kind == "integer":
        z = np.round(5 * z)
    arg = np.matrix(z) if rng.rand() < .2 else gen.layout(rng, z)
    case.cover("%s T=%d n=%d sensor=%d k=%d %s" % (kind, t, n, m, k, type(arg).__name__), m // k > 0)
    fr = Frozen(z=arg, old=old, new=new)
    got = dense(quiet(lambda: filter_and_resample_measurement(arg, old, new, k, verbose=bool(rng.randint(2)))))
    fr.verify(case, "filter_and_resample_measurement")
    want = averaged(z, old, new, k)
    case.close(got, want, "interpolated and averaged blocks in order", 1e-9)
    rows = len(want)
    blocks = new[:rows * k].reshape(rows, k)
    if kind == "constant":
        case.close(got, np.tile(z[:1], (rows, 1)), "constant signals are kept", 1e-10)
    if kind == "linear":
        slope = (z[-1] - z[0]) / (old[-1] - old[0])
        case.close(got, z[0] + np.outer(blocks.mean(axis=1) - old[0], slope), "linear signals are kept", 1e-9)
    if kind == "one channel":
        case.check(not np.any(got[:, np.arange(n) != c]), "channels do not mix")
    # linear in the data
    z2 = gen.cplx(rng, (t, n), "gauss")
    f = lambda a: dense(filter_and_resample_measurement(a, old, new, k))
    case.close(f(z + 2j * z2), got + 2j * f(z2), "superposition", 1e-9, atol=1e-9)
    # declared noise arguments without a noise function add nothing
    case.close(dense(filter_and_resample_measurement(arg, old, new, k, np.ones(n), np.ones(n), None)), got, "no noise function", 1e-12)


@monitor(REGISTRY, quick=40, thorough=1000)
def defaults(case):
    """Without sensor times the samples themselves are averaged; without sample times they are equally spaced."""
    rng = case.rng
    t, n = rng.randint(2, 40), rng.randint(1, 5)
    z = gen.cplx(rng, (t, n), "gauss")
    k = rng.randint(1, min(t, 5) + 1)
    case.cover("T=%d n=%d k=%d" % (t, n, k))
    old = grid(rng, t)
    want = averaged(z, old, old, k)
    case.close(filter_and_resample_measurement(z, old, None, k), want, "no sensor times", 1e-9)
    case.close(filter_and_resample_measurement(z, fparam=k), want, "no times at all", 1e-9)
    case.close(filter_and_resample_measurement(z, old, old), z, "no averaging unless asked for", 1e-9)
    case.close(filter_and_resample_measurement(z, fparam=k, noise_fcn=add_polar_noise_to_measurement), want, "no declared noise", 1e-9)
    new = np.linspace(0, t - 1, rng.randint(k, 60))
    case.close(filter_and_resample_measurement(z, None, new, k), averaged(z, np.arange(t), new, k), "no sample times", 1e-9)


@monitor(REGISTRY, quick=32, thorough=800)
def noise_of_average(case):
    """Averaging k samples divides the variance by k, channel by channel with their own deviations."""
    rng = case.rng
    n, k, rows = rng.randint(1, 5), int(gen.pick(rng, 1, 2, 5, 20)), 3000
    old = np.array([0., 10.])
    m = rng.uniform(.5, 3, n)
    a = rng.uniform(-3, 3, n)
    z = np.tile(m * np.exp(1j * a), (2, 1))
    per = rng.rand() < .7
    sm = 10. ** rng.uniform(-4, -2, n) if per else float(10. ** rng.uniform(-4, -2))
    sp = 10. ** rng.uniform(-4, -2, n) if per else float(10. ** rng.uniform(-4, -2))
    case.cover("n=%d k=%d per channel=%s" % (n, k, per))
    sp = np.minimum(sp, np.sqrt(.09 * sm / m)) if per else min(sp, float(np.sqrt(.09 * sm / m.max())))
    fr = Frozen(z=z, sm=sm, sp=sp)
    new = np.linspace(0, 10, rows * k)
    got = filter_and_resample_measurement(z, old, new, k, sm, sp, add_polar_noise_to_measurement)
    fr.verify(case, "filter_and_resample_measurement")
    case.check(got.shape == (rows, n), "one row per block", got.shape)
    judge_noise(case, got, np.tile(z[:1], (rows, 1)), np.broadcast_to(sm, n), np.broadcast_to(sp, n), k, "averaged noise")


def judge_noise(case, noisy, clean, sm, sp, k, what):
    """noisy = clean + averages of k noises; radial and tangential errors against their declared deviations."""
    rows = len(noisy)
    e = (noisy - clean) * np.exp(-1j * np.angle(clean))
    m = np.mean(np.abs(clean), axis=0)
    # moments of the Cartesian errors, with the second order terms of the conversion
    sd = np.hstack((np.sqrt(sm ** 2 + m ** 2 * sp ** 4 / 2), m * sp)) / np.sqrt(k)
    x = np.hstack((e.real + m * sp ** 2 / 2, e.imag))
    # channels without magnitude noise only have the second order term of their phase noise
    on = np.hstack((sm > 10 * m * sp ** 2, sp > 0))
    bound = np.hstack((20 * m * sp ** 2, 0 * m)) + 1e-9
    case.check(np.all(np.abs(x) < np.where(np.hstack((sm > 0, sp > 0)), np.inf, bound)), what + ": none where none is declared")
    if not np.any(on):
        return case.event("noise-free measurements")
    x = x[:, on] / sd[on]
    case.check(np.max(np.abs(x.mean(axis=0))) < SIGMAS / np.sqrt(rows) + .02, what + ": zero mean", x.mean(axis=0))
    s = np.sqrt(np.mean(x ** 2, axis=0))
    case.check(np.max(np.abs(s - 1)) < SIGMAS / np.sqrt(2 * rows) + .02, what + ": declared deviation (ratio per channel)", s)
    c = x.T @ x / rows
    np.fill_diagonal(c, 0)
    case.check(np.max(np.abs(c)) < SIGMAS / np.sqrt(rows) + .02, what + ": independent channels", c)
    case.event("noise samples judged", x.size)


class Config:
    """Sets entries of a configuration module for one case."""
    def __init__(self, mod, **kw):
        self.mod, self.kw = mod, kw

    def __enter__(self):
        self.old = {k: getattr(self.mod, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(self.mod, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def stage(case, three):
    rng = case.rng
    f = Feeder(rng, rng.randint(2, 7) if rng.rand() < .8 else rng.randint(8, 20) // (3 if three else 1) + 1, three=three)
    net = f.build(SimulatedNet3P if three else SimulatedNet)
    net.name = "c16_%d" % case.index
    ch = f.n * (3 if three else 1)
    t = rng.randint(2, 30)
    times = np.arange(t) * 60.
    kind = gen.pick(rng, "constant", "constant", "slow")
    ang = rng.uniform(-np.pi, np.pi, 2 * ch)
    mag = np.concatenate((rng.uniform(.9, 1.1, ch), rng.uniform(1, 3, ch)))
    z = np.tile(mag * np.exp(1j * ang), (t, 1))
    if kind == "slow":
        z = z * (1 + .01 * rng.rand(t, 2 * ch)) * np.exp(1e-5j * rng.rand(t, 2 * ch))
    v, i = z[:, :ch], z[:, ch:]
    rows = int(gen.pick(rng, 200, 500, 1000))
    k = int(gen.pick(rng, 1, 4, 9, 75))
    fmeas = (rows * k + rng.randint(0, k) + .3) / times.max()
    factor = float(gen.pick(rng, 4., 1., 2.5))
    equivalent = bool(rng.rand() < .5) or k > 50
    sd = [float(x) for x in 10. ** rng.uniform(-5, -3, 4) * (rng.rand(4) > (.4 if rng.rand() < .3 else 0))]
    case.cover("3ph=%s n=%d pcc=%d T=%d %s rows=%d k=%d equivalent=%s factor=%g" % (
        three, f.n, f.pcc, t, kind, rows, k, equivalent, factor))
    mod = run3ph if three else run
    sf = factor * np.ones(3) if three else factor
    params = (sd[0], sd[1], sd[2], sd[3], equivalent, sf)
    arg_i = np.matrix(i) if rng.rand() < .3 else i
    fr = Frozen(v=v, i=arg_i, times=times, sf=sf)
    seed = int(rng.randint(2 ** 31 - 1))
    with Config(conf, seed=seed), Config(simulation, safety_factor=factor):
        call = lambda p: quiet(lambda: mod.add_noise_and_filter(net, v, arg_i, times, fmeas, rows, p, verbose=case.verbose))
        nv, ni, cv, ci, ratings, fparam = call(params)
        fr.verify(case, "add_noise_and_filter")
        again = call(params)
        loaded = call(None)
    nv, ni, cv, ci = (dense(a) for a in (nv, ni, cv, ci))
    case.check(nv.shape == ni.shape == cv.shape == ci.shape and nv.shape[1] == ch, "equal shapes, one column per channel",
               nv.shape, ni.shape, cv.shape, ci.shape)
    case.check(int(fparam) == k, "true averaging factor", fparam, k)
    case.check(abs(len(nv) - rows) <= 1, "number of blocks", len(nv), rows)
    for a, b, c, name in zip((nv, ni, cv, ci), again, loaded, ("noisy voltage", "noisy current", "voltage", "current")):
        case.same(dense(b), a, name + " of a second call")
        case.same(dense(c), a, "reloaded " + name)
    case.check(int(loaded[5]) == k, "averaging factor after reloading", loaded[5], k)
    ratings = np.asarray(ratings)
    case.close(loaded[4], ratings, "ratings after reloading", 1e-12)
    # noise-free data
    n_ts = round(times.max() * fmeas)
    if equivalent:
        want = averaged(z, times, np.linspace(0, times.max(), len(cv)), 1)
    else:
        want = averaged(z, times, np.linspace(0, times.max(), n_ts), k)
    case.close(np.hstack((cv, ci)), want, "noise-free data are the averaged signals", 1e-9)
    # ratings: column order and feeding bus
    case.check(ratings.shape == (ch,), "one rating per column", ratings.shape)
    ph = 3 if three else 1
    r = ratings.reshape(f.n, ph)
    p = (f.p if three else f.p[:, None]).copy()
    for b in range(f.n):
        if b == f.pcc:
            continue
        case.check(np.array_equal(r[b] > 0, p[b] > 0), "ratings of bus %d where its loads are" % b, r[b], p[b])
    rest = np.delete(r, f.pcc, axis=0)
    case.close(r[f.pcc], rest.sum(axis=0), "the feeding bus is rated for all loads", 1e-9)
    size = np.delete(np.hypot(f.p, f.q).reshape(f.n, ph) * (1 if not three else np.where(f.sym, 3, 1)[:, None]), f.pcc, axis=0)
    order = np.argsort(size.ravel(), kind="stable")
    case.check(np.all(np.diff(rest.ravel()[order]) >= -1e-12), "larger loads have larger ratings", size.ravel(), rest.ravel())
    with Config(conf, seed=seed):
        r2 = np.asarray(quiet(lambda: mod.add_noise_and_filter(
            net, v, arg_i, times, fmeas, rows, params[:5] + (2 * sf,), verbose=False))[4])
    case.close(r2, 2 * ratings, "ratings follow the safety factor", 1e-10)
    # noise levels, with the averaging factor it returned
    small = sd[1] * ratings < .05
    sm = np.concatenate((np.full(ch, sd[0]), sd[1] * ratings))
    sp = np.concatenate((np.full(ch, sd[2]), np.full(ch, sd[3])))
    use = np.concatenate((np.ones(ch, dtype=bool), small ))
    noisy, clean = np.hstack((nv, ni)), np.hstack((cv, ci))
    root = np.sqrt(int(fparam)) if equivalent else 1.
    judge_noise(case, noisy[:, use], clean[:, use], sm[use] / root, sp[use] / root, 1 if equivalent else int(fparam), "measurement noise")


@monitor(REGISTRY, quick=48, thorough=900)
def stage_single_phase(case):
    stage(case, False)


@monitor(REGISTRY, quick=48, thorough=700)
def stage_three_phase(case):
    stage(case, True)
