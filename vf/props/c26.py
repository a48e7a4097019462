"""C26: joint identification of the three sequences is the assembly of the three separate ones."""
import numpy as np
from conf import identification, conf
from pathlib import Path
from src.identification import run, run3ph
from vf.core import monitor, Frozen, dense
from vf import gen

REGISTRY = []
OUT = Path(conf.DATA_DIR) / "simulations_output"


class Options:
    """Identification settings for the time of a case."""
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: getattr(identification, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(identification, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(identification, k, v)


class Data:
    """Measurements of three decoupled sequences whose channels come in any order."""
    def __init__(self, rng, equal=False, lap=None, n=None):
        self.rng = rng
        self.lap = bool(rng.rand() < .4) if lap is None else lap
        self.n = [rng.randint(2, 5)] * 3 if equal or rng.rand() < .5 else list(rng.randint(2, 5, size=3))
        self.n = self.n if n is None else n
        ids = np.repeat(np.arange(3), self.n)
        style = gen.pick(rng, "blocks", "interleaved", "random", "random")
        if style == "interleaved" and len(set(self.n)) == 1:
            ids = np.tile(np.arange(3), self.n[0])
        elif style != "blocks":
            ids = rng.permutation(ids)
        self.ids, self.style = ids, style
        m = len(ids)
        self.t = 2 * max(self.n) + rng.randint(4, 20)
        self.y = np.zeros((m, m), dtype=complex)
        for s in range(3):
            k = np.where(ids == s)[0]
            y = gen.laplacian(rng, len(k), .6)
            if not self.lap:
                y = y + np.diag(rng.rand(len(k)) + .3)
            self.y[np.ix_(k, k)] = y
        e = float(gen.pick(rng, 1e-3, 1e-2))
        amp = .05
        # sequences of different signal levels settle after different numbers of iterations
        self.scale = 10. ** rng.uniform(-2, 0, 3) if rng.rand() < .6 else np.ones(3)
        scale = self.scale[ids]
        self.v = 1 + amp * gen.cplx(rng, (self.t, m), "gauss") * scale
        self.i = self.v @ self.y + e * amp * gen.cplx(rng, (self.t, m), "gauss") * scale
        self.v = self.v + e * amp * gen.cplx(rng, (self.t, m), "gauss") * scale
        self.p = rng.uniform(.5, 2., m)
        self.sd = [complex(*rng.uniform(.3, 1., 2)) * e * amp for _ in range(2)]

    def where(self, s):
        return np.where(self.ids == s)[0]

    def place(self, parts):
        out = np.zeros_like(self.y)
        for s in range(3):
            out[np.ix_(self.where(s), self.where(s))] = parts[s]
        return out


def options(rng):
    tol = dict(abs_tol=10. ** rng.uniform(-13, -3), rel_tol=float(gen.pick(rng, 1e-16, 1e-8, 1e-3, .1)))
    if rng.rand() < .25:
        tol = dict(abs_tol=0., rel_tol=0.)
    return Options(lambda_lasso=10. ** rng.uniform(-10, gen.pick(rng, -5, -1)), lambda_eiv=10. ** rng.uniform(-9, -4),
                   lambdaprime=float(gen.pick(rng, 200., 20., 1.)), **tol)


def apart(case, ids, y, what):
    m = np.asarray(ids)[:, None] != np.asarray(ids)[None, :]
    case.check(not np.any(y[m]), what + ": zeros between sequences")


def saved(kind, name):
    with np.load(OUT / (kind + "_results_" + name + ".npz"), allow_pickle=True) as z:
        return {k: z[k] for k in z.files}


@monitor(REGISTRY, quick=120, thorough=3000)
def standard(case):
    rng = case.rng
    d = Data(rng)
    its = int(gen.pick(rng, 0, 1, 3, 10, 24))
    case.cover("n=%s %s lap=%s its=%d T=%d" % (d.n, d.style, d.lap, its, d.t))
    name = "c26s%d" % case.index
    fr = Frozen(v=d.v, i=d.i, ids=d.ids)
    with options(rng):
        got = run3ph.standard_methods(name, d.v, d.i, d.ids, d.lap, its, False)
        fr.verify(case, "standard_methods")
        f = saved("standard", name)
        again = run3ph.standard_methods(name, None, d.i, d.ids, d.lap, its, False)
        parts = [run.standard_methods(name + "p", d.v[:, d.where(s)], d.i[:, d.where(s)], None, d.lap, its, False)
                 for s in range(3)]
    for k, what in enumerate(("ols", "tls", "lasso")):
        want = d.place([p[k] for p in parts])
        case.close(got[k], want, what + ": assembly of the separate estimates", 1e-6)
        apart(case, d.ids, got[k], what)
        case.same(f["otl"[k]], got[k], what + ": saved joint estimate")
        case.same(again[k], got[k], what + ": reloaded joint estimate")
        case.event("estimates compared")
    # the unregularised ones are those of the documented regression on centred data
    for s in range(3):
        v, i = d.v[:, d.where(s)], d.i[:, d.where(s)]
        if d.lap:
            v = v - v.mean()
        else:
            v, i = v - v.mean(axis=0), i - i.mean(axis=0)
        k = d.where(s)
        case.close(got[0][np.ix_(k, k)], np.linalg.lstsq(v, i, rcond=None)[0], "ols of the sequence's own data", 1e-7)
        if not d.lap:
            case.check(np.linalg.norm(got[1][np.ix_(k, k)] - d.y[np.ix_(k, k)]) < .5 * np.linalg.norm(d.y[np.ix_(k, k)]),
                       "tls near the sequence's matrix")
    for fn in OUT.glob("*" + name + "*"):
        fn.unlink()


@monitor(REGISTRY, quick=100, thorough=2500)
def bayesian(case):
    rng = case.rng
    d = Data(rng)
    its = int(gen.pick(rng, 1, 2, 5, 12, 36))
    weighted, pmu = bool(rng.rand() < .5), bool(rng.rand() < .85)
    case.cover("n=%s %s lap=%s its=%d weighted=%s sync=%s" % (d.n, d.style, d.lap, its, weighted, pmu))
    name = "c26b%d" % case.index
    init = d.place([(lambda y: y + .05 * np.abs(y).max() * (lambda e: e + e.T)(gen.cplx(rng, y.shape, "gauss")))(
        d.y[np.ix_(d.where(s), d.where(s))]) for s in range(3)])
    # what stands between the sequences of the initial guess does not matter
    if rng.rand() < .3:
        m = d.ids[:, None] != d.ids[None, :]
        init = init + np.where(m, gen.cplx(rng, init.shape, "gauss"), 0)
    fr = Frozen(v=d.v, i=d.i, ids=d.ids, p=d.p, init=init)
    with options(rng):
        def alone(s, n_its):
            k = d.where(s)
            return run.bayesian_eiv(name + "p", d.v[:, k], d.i[:, k], None, d.sd[0], d.sd[1], d.p[k], init[np.ix_(k, k)],
                                    None, d.lap, weighted, n_its, pmu, False)
        got, hist = run3ph.bayesian_eiv(name, d.v, d.i, d.ids, d.sd[0], d.sd[1], d.p, init, None, d.lap, weighted, its,
                                        pmu, False)
        fr.verify(case, "bayesian_eiv")
        f = saved("bayesian", name)
        parts = [alone(s, its) for s in range(3)]
        again, hist2 = run3ph.bayesian_eiv(name, d.v, d.i, d.ids, d.sd[0], d.sd[1], d.p, init, None, d.lap, weighted, 0,
                                           pmu, False)
        f2 = saved("bayesian", name)
    if not all(np.all(np.isfinite(p[0])) for p in parts):
        return
    want = d.place([p[0] for p in parts])
    case.close(got, want, "assembly of the separate estimates", 1e-5)
    apart(case, d.ids, got, "estimate")
    case.same(f["y"], got, "saved joint estimate")
    common = min(len(p[1]) for p in parts)
    if len({len(p[1]) for p in parts}) > 1:
        case.event("histories shortest in sequence %d" % int(np.argmin([len(p[1]) for p in parts])))
    for h, what in ((hist, "returned"), (f["i"], "saved"), (hist2, "reloaded"), (f2["i"], "saved again")):
        case.check(len(h) == common, what + " history has the common iterations", len(h), [len(p[1]) for p in parts])
        for k in range(common):
            case.check(h[k].iteration == k, what + " iteration numbers", h[k].iteration, k)
            case.close(h[k].fitted_parameters, d.place([p[1][k].fitted_parameters for p in parts]),
                       what + " joint estimate of iteration %d" % k, 1e-5)
            tgt = sum(p[1][k].target_function for p in parts)
            case.check(abs(h[k].target_function - tgt) <= 1e-6 * abs(tgt), what + " sum of targets", h[k].target_function, tgt)
            case.event("iterations compared")
    case.same(again, got, "reloaded joint estimate")
    case.same(f2["y"], got, "saved joint estimate after reloading")
    for fn in OUT.glob("*" + name + "*"):
        fn.unlink()


@monitor(REGISTRY, quick=2, thorough=12, limit=300)
def known_lines(case):
    """Exact values of a sequence are beliefs about that sequence."""
    rng = case.rng
    d = Data(rng, lap=False, n=[29, 30, 29] if case.index % 2 else [30, 29, 30])
    d.t += 20
    d.y = d.y * np.repeat(10. ** rng.uniform(-1, 1, 3), 1)[d.ids][:, None]
    d.y = (d.y + d.y.T) / 2
    d.i = d.v @ d.y + 1e-4 * gen.cplx(rng, d.v.shape, "gauss")
    case.cover("n=%s %s" % (d.n, d.style))
    name = "c26k%d" % case.index
    init = d.y + .05 * np.abs(d.y).max() * (lambda e: e + e.T)(gen.cplx(rng, d.y.shape, "gauss"))
    with Options(lambda_eiv=1e-3, lambdaprime=200., contrast_each_row=True, abs_tol=1e-13, rel_tol=1e-16):
        got, hist = run3ph.bayesian_eiv(name, d.v, d.i, d.ids, d.sd[0], d.sd[1], d.p, init, d.y, False, False, 1, True, False)
        for s in range(3):
            k = d.where(s)
            b = np.ix_(k, k)
            alone, _ = run.bayesian_eiv(name + "p", d.v[:, k], d.i[:, k], None, d.sd[0], d.sd[1], d.p[k], init[b], d.y[b],
                                        False, False, 1, True, False)
            case.close(got[b], alone, "estimate with the sequence's own known lines", 1e-5)
            case.event("estimates with known lines compared")
    apart(case, d.ids, got, "estimate")
    for fn in OUT.glob("*" + name + "*"):
        fn.unlink()


@monitor(REGISTRY, quick=60, thorough=1000)
def independent(case):
    """Other sequences' data do not influence a sequence's estimate; relabelling the channels moves the estimates."""
    rng = case.rng
    d = Data(rng)
    case.cover("n=%s %s lap=%s" % (d.n, d.style, d.lap))
    s = rng.randint(3)
    k = d.where(s)
    v2, i2 = 1 + .05 * gen.cplx(rng, d.v.shape, "gauss"), gen.cplx(rng, d.i.shape, "gauss")
    v2[:, k], i2[:, k] = d.v[:, k], d.i[:, k]
    order = rng.permutation(len(d.ids))
    # keep the order within each sequence
    target = np.empty(len(order), dtype=int)
    ids2 = d.ids[order]
    for q in range(3):
        target[np.where(ids2 == q)[0]] = d.where(q)
    name = "c26i%d" % case.index
    init = d.y + .05 * np.abs(d.y).max() * gen.cplx(rng, d.y.shape, "gauss")
    init = (init + init.T) / 2
    with options(rng):
        def both(v, i, ids, p, init):
            a = run3ph.standard_methods(name, v, i, ids, d.lap, 3, False)
            b, h = run3ph.bayesian_eiv(name, v, i, ids, d.sd[0], d.sd[1], p, init, None, d.lap, False, 3, True, False)
            return list(a) + [b]
        one = both(d.v, d.i, d.ids, d.p, init)
        two = both(v2, i2, d.ids, d.p, init)
        thr = both(d.v[:, target], d.i[:, target], ids2, d.p[target], init[np.ix_(target, target)])
    for a, b, c in zip(one, two, thr):
        case.close(a[np.ix_(k, k)], b[np.ix_(k, k)], "estimate of a sequence under other data of the others", 1e-5)
        case.close(a[np.ix_(target, target)], c, "estimates of reordered channels", 1e-5)
    for fn in OUT.glob("*" + name + "*"):
        fn.unlink()


@monitor(REGISTRY, quick=12, thorough=200)
def all_phases(case):
    """Without sequences, the standard methods see all phases together."""
    rng = case.rng
    d = Data(rng, equal=True)
    d.t += 4 * len(d.ids)
    m = len(d.ids)
    y = gen.laplacian(rng, m, .5) + (0 if d.lap else np.eye(m))
    v = 1 + .05 * gen.cplx(rng, (d.t, m), "gauss")
    i = v @ y + 1e-4 * gen.cplx(rng, (d.t, m), "gauss")
    case.cover("m=%d lap=%s" % (m, d.lap))
    name = "c26a%d" % case.index
    with options(rng):
        a = run3ph.standard_methods(name, v, i, None, d.lap, 3, False)
        b = run.standard_methods(name, v, i, None, d.lap, 3, False)
        c = run3ph.standard_methods(name, None, i, None, d.lap, 3, False)
    for x, z, w in zip(a, b, c):
        case.close(x, z, "same estimates as for one phase", 1e-6)
        case.same(x, w, "reload")
    for fn in OUT.glob("*" + name + "*"):
        fn.unlink()
