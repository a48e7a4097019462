"""C25: calls leave their inputs alone and do not depend on history.

Every call of a random session on shared data is compared with the same call made first in a fresh process."""
import copy
import os
import pickle
import tempfile
import numpy as np
from scipy import sparse as sp
from conf import identification, simulation
from src.identification import run as idrun, run3ph as idrun3
from src.models import error_metrics as em, matrix_operations as mo, noise_transformation as nt
from src.models.error_in_variable import TotalLeastSquares, BayesianEIVRegression
from src.models.regression import ComplexRegression, BayesianRegression
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
from src.simulation import lines, noise, load_profile, run as simrun, run3ph as simrun3
from src.simulation.network import NetData
from src.simulation.network_3ph import NetData3P
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P
from vf.core import monitor, dense, equal, short
from vf import gen, cli
from vf.net import Feeder, bus_data
from vf.props.c13 import quiet, outdir

REGISTRY = []
TABLES = ("bus", "load", "line", "ext_grid", "asymmetric_load", "controller", "trafo", "switch", "shunt", "sgen")


def plain(x):
    """Comparable picture of an argument or result."""
    if hasattr(x, "todense") or isinstance(x, (np.ndarray, np.matrix)):
        return np.array(dense(x))
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "load") and hasattr(x, "bus") and hasattr(x, "ext_grid"):
        return [(t, list(map(str, x[t].columns)), [str(i) for i in x[t].index], x[t].astype(str).values.tolist())
                for t in TABLES if t in x] + [str(x.get("name")), float(x.sn_mva),
                                              sorted((k, sorted((a, str(b)) for a, b in v.items()))
                                                     for k, v in x.std_types["line"].items())]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None))) or np.isscalar(x):
        return x
    if callable(x) and not hasattr(x, "fit"):
        return "function"
    if hasattr(x, "__dict__"):
        return {k: plain(v) for k, v in x.__dict__.items()}
    return repr(x)


def alike(a, b, rtol):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
            return equal(a, b)
        if a.size == 0:
            return True
        na, nb = np.isnan(a), np.isnan(b)
        if not np.array_equal(na, nb):
            return False
        inf = ~np.isfinite(a)
        if not np.array_equal(inf, ~np.isfinite(b)):
            return False
        x, y = np.where(inf, 0, a), np.where(inf, 0, b)
        return bool(np.max(np.abs(x * 1. - y * 1.)) <= rtol * max(1e-300, np.max(np.abs(y * 1.))))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(p, q, rtol) for p, q in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k], rtol) for k in a)
    if isinstance(a, (float, complex)) or isinstance(b, (float, complex)):
        return bool(a == b or (a != a and b != b) or abs(a - b) <= rtol * abs(b))
    try:
        return bool(a == b)
    except Exception:
        return False


class Op:
    def __init__(self, name, fn, seed, rtol=1e-9):
        self.name, self.fn, self.seed, self.rtol = name, fn, seed, rtol

    def __call__(self):
        np.random.seed(self.seed)
        return plain(quiet(self.fn))


def isolated(case, fns):
    """Results of the functions, each in its own fresh copy of this process."""
    out = []
    for fn in fns:
        fd, fname = tempfile.mkstemp(dir=case.workdir)
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    r = ("ok", fn())
                except Exception as e:
                    import traceback
                    r = ("error", "%s: ..." % getattr(fn, "name", "") + traceback.format_exc()[-600:])
                with open(fname, "wb") as f:
                    pickle.dump(r, f)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        with open(fname, "rb") as f:
            data = f.read()
        os.remove(fname)
        case.check(len(data) > 0, "the call ends")
        kind, r = pickle.loads(data)
        case.check(kind == "ok", "the call ends normally", r)
        out.append(r)
    return out


def evolver(rng, data, names):
    """A change of the data in place: the same objects then hold other values."""
    seed, one = int(rng.randint(2 ** 31 - 1)), bool(rng.randint(2))

    def change():
        g = np.random.RandomState(seed)
        for k in names:
            for a in (data[k] if isinstance(data[k], list) else [data[k]]):
                if isinstance(a, np.ndarray):
                    if one:
                        a[tuple(g.randint(s) for s in a.shape)] *= 1.25
                    else:
                        a *= 1 + .1 * g.rand(*a.shape)
                else:  # a network: other line lengths and loads
                    a.line["length_km"] *= 1 + .1 * g.rand(len(a.line))
                    a.load["p_mw"] *= 1 + .1 * g.rand(len(a.load))
    return change


def session(case, data, ops, n, names=()):
    """A random history of the operations in one process; inputs and results are watched at every step."""
    rng = case.rng
    change = evolver(rng, data, names)

    def later(op):
        def fn():
            change()
            return op()
        fn.name = op.name
        return fn
    ref = [isolated(case, ops)] * 2
    order = [int(rng.randint(len(ops))) for _ in range(n)]
    if names and rng.rand() < .7:
        when = int(rng.randint(1, n))
        after = set(order[when:])
        new = isolated(case, [later(ops[i]) for i in sorted(after)])
        ref = [ref[0], dict(zip(sorted(after), new))]
        case.event("histories with data changed in place")
    else:
        when = n

    def history():
        before = plain(data)
        log = []
        for k, i in enumerate(order):
            if k == when:
                change()
                before = plain(data)
            r = ops[i]()
            past = ", ".join(ops[j].name for j in order[max(0, k - 4):k]) + (
                "; data changed %d calls ago" % (k - when) if k >= when else "")
            now = plain(data)
            if not alike(now, before, 0.):
                bad = [x for x in before if not alike(now[x], before[x], 0.)]
                return ("%s modified %s" % (ops[i].name, bad), len(log))
            want = ref[k >= when][i]
            if not alike(r, want, ops[i].rtol):
                return ("%s after [%s]: other result than in a fresh process: %s instead of %s" % (
                    ops[i].name, past, short(r), short(want)), len(log))
            log.append(i)
        return (None, len(log))
    (msg, k), = isolated(case, [history])
    case.event("calls in sessions", k)
    case.event("calls in fresh processes", len(ops))
    for i in set(order):
        case.event("op " + ops[i].name)
    case.checks += 2 * k
    case.check(msg is None, str(msg))


def some(rng, ops, k):
    return [ops[i] for i in rng.permutation(len(ops))[:k]]


@monitor(REGISTRY, quick=60, thorough=1200, limit=200)
def calls(case):
    """Functions on arrays and matrices."""
    rng = case.rng
    n, t = rng.randint(2, 5), rng.randint(6, 20)
    m = 3 * rng.randint(1, 3)
    D = dict(
        x=gen.layout(rng, 1 + .1 * gen.cplx(rng, (t, n), "gauss")), z=gen.layout(rng, gen.cplx(rng, (t, n), "gauss")),
        y=gen.layout(rng, gen.cplx(rng, (n, n))), h=gen.cplx(rng, (n, n), "gauss"),
        y3=gen.cplx(rng, (m, m), "gauss"), v3=gen.cplx(rng, (t, m), "gauss"),
        sds=rng.uniform(.01, .1, n), sd=float(rng.uniform(.01, .1)), idx=np.sort(rng.permutation(n)[:1]),
        times=np.arange(t) * 60., new=np.linspace(0, (t - 1) * 60., 3 * t), std=rng.uniform(.001, .1, n),
        refs=[rng.uniform(.1, 2, n) for _ in range(6)], big=mo.make_real_matrix(gen.cplx(rng, (n, t), "gauss")),
        vec=gen.cplx(rng, (n * n, 1), "gauss"), rvec=gen.real(rng, (2 * n,), "gauss"))
    D["spy"] = sp.csr_matrix(D["y"])
    seed = int(rng.randint(2 ** 31 - 1))
    L = lambda name, fn, rtol=1e-9: Op(name, fn, seed, rtol)
    ops = [
        L("vectorize_matrix", lambda: mo.vectorize_matrix(D["y"])),
        L("unvectorize_matrix", lambda: mo.unvectorize_matrix(D["vec"], (n, n))),
        L("make_real_vector", lambda: mo.make_real_vector(D["vec"])),
        L("make_complex_vector", lambda: mo.make_complex_vector(D["rvec"])),
        L("make_real_matrix", lambda: mo.make_real_matrix(D["y"])),
        L("make_real_matrix sparse", lambda: mo.make_real_matrix(D["spy"])),
        L("make_complex_matrix", lambda: mo.make_complex_matrix(D["big"])),
        L("duplication_matrix", lambda: mo.duplication_matrix(n)),
        L("transformation_matrix", lambda: mo.transformation_matrix(n)),
        L("elimination_sym_matrix", lambda: mo.elimination_sym_matrix(n)),
        L("elimination_lap_matrix", lambda: mo.elimination_lap_matrix(n)),
        L("undelete rows", lambda: mo.undelete(D["y"], D["idx"], 0)),
        L("undelete columns", lambda: mo.undelete(D["y"], D["idx"], 1)),
        L("exact covariance", lambda: nt.exact_noise_covariance(D["x"], D["sd"], D["sd"], False)),
        L("naive covariance", lambda: nt.naive_noise_covariance(D["x"], D["sds"], D["sd"], True)),
        L("average covariance", lambda: nt.average_true_noise_covariance(D["x"], D["sds"], D["sd"], False)),
        L("average covariance inverted", lambda: nt.average_true_noise_covariance(D["z"], D["sd"], D["sd"], True)),
        L("cartesian noise", lambda: noise.add_noise_in_cartesian_coordinates(D["x"], D["z"], D["sd"], D["sd"])),
        L("polar noise", lambda: noise.add_noise_in_polar_coordinates(D["x"], D["z"], D["sd"], D["sd"])),
        L("polar noise by channel", lambda: noise.add_polar_noise_to_measurement(D["z"], D["std"], D["std"])),
        L("filter", lambda: noise.filter_and_resample_measurement(D["z"], D["times"], D["new"], 2)),
        L("filter with noise", lambda: noise.filter_and_resample_measurement(
            D["z"], D["times"], D["new"], 3, D["std"], D["std"], noise.add_polar_noise_to_measurement)),
        L("filter defaults", lambda: noise.filter_and_resample_measurement(D["z"])),
        L("admittance to phase", lambda: lines.admittance_sequence_to_phase(D["y3"])),
        L("admittance to sequence", lambda: lines.admittance_phase_to_sequence(D["y3"])),
        L("measurement to phase", lambda: lines.measurement_sequence_to_phase(D["v3"])),
        L("measurement to sequence", lambda: lines.measurement_phase_to_sequence(D["v3"])),
        L("error metrics", lambda: em.error_metrics(D["y"], D["h"])),
        L("gaussian loads", lambda: load_profile.generate_gaussian_load(.1, t, D["refs"][0], D["refs"][1])),
        L("gaussian loads of phases", lambda: load_profile.generate_gaussian_load(.1, t, *D["refs"])),
    ]
    ops = some(rng, ops, 14)
    case.cover("n=%d T=%d %s" % (n, t, ",".join(sorted(o.name for o in ops))))
    session(case, D, ops, 40, ["x", "z", "y", "h", "y3", "v3", "sds", "std", "refs", "vec", "rvec"])


@monitor(REGISTRY, quick=40, thorough=800, limit=300)
def estimators(case):
    """Estimators and priors; objects are shared and reused."""
    rng = case.rng
    n = rng.randint(2, 5)
    t = 2 * n + rng.randint(4, 16)
    lap = bool(rng.randint(2))
    y = gen.laplacian(rng, n, .7) + (0 if lap else np.eye(n))
    p = 2 * (n * (n + (-1 if lap else 1)) // 2)

    def meas(e):
        v = .05 * gen.cplx(rng, (t, n), "gauss")
        return v + e * gen.cplx(rng, (t, n), "gauss"), v @ y + e * gen.cplx(rng, (t, n), "gauss")
    x, z = meas(1e-3)
    x2, z2 = meas(1e-2)
    est = y + .1 * (lambda e: e + e.T)(gen.cplx(rng, (n, n), "gauss"))
    cls = gen.pick(rng, SmoothPrior, SparseSmoothPrior)
    prior = cls(1e-4, p)
    prior.add_adaptive_sparsity_prior(np.arange(p), rng.uniform(.5, 2, p), SmoothPrior.LAPLACE)
    prior2 = cls(1e-3, p)
    prior2.add_exact_prior(np.arange(2), rng.randn(2), None, 2)
    e = (lambda q: mo.elimination_lap_matrix(q) @ mo.elimination_sym_matrix(q)) if lap else mo.elimination_sym_matrix
    d = (lambda q: mo.duplication_matrix(q) @ mo.transformation_matrix(q)) if lap else mo.duplication_matrix
    kw = dict(lambda_value=1e-5, abs_tol=1e-12, rel_tol=1e-12, max_iterations=3, verbose=False, dt_matrix_builder=d,
              e_matrix_builder=e)
    D = dict(x=x, z=z, x2=x2, z2=z2, est=est, prior=prior, prior2=prior2, idx=np.arange(3), val=rng.uniform(.5, 2, 3),
             w=rng.uniform(.5, 2, 3), con=np.array([[0, 1], [1, 2]]), rat=rng.uniform(.5, 2, 2), at=rng.randn(p),
             wx=nt.average_true_noise_covariance(1 + x, .01, .01, True), wz=nt.average_true_noise_covariance(1 + z, .01, .01, True),
             cx=nt.average_true_noise_covariance(1 + x, .01, .01, False), cz=nt.average_true_noise_covariance(1 + z, .01, .01, False))
    ols, tls = ComplexRegression(), TotalLeastSquares()
    bay, eiv = BayesianRegression(prior, **kw), BayesianEIVRegression(prior, **kw)

    def fit(m, *a):
        m.fit(*a)
        its = [(i.iteration, i.fitted_parameters, i.target_function) for i in m.iterations] if hasattr(m, "iterations") else []
        return [m.fitted_admittance_matrix, its]

    def extended(base, name, *a):
        q = type(base)(n=0, other=base)
        getattr(q, name)(*a)
        return list(q.log_distribution(D["at"]))
    seed = int(rng.randint(2 ** 31 - 1))
    L = lambda name, fn, rtol=1e-6: Op(name, fn, seed, rtol)
    ops = [
        L("least squares", lambda: fit(ols, D["x"], D["z"])), L("least squares 2", lambda: fit(ols, D["x2"], D["z2"])),
        L("total least squares", lambda: fit(tls, D["x"], D["z"])), L("total least squares 2", lambda: fit(tls, D["x2"], D["z2"])),
        L("fisher", lambda: list(tls.fisher_info(D["x"], D["z"], D["cx"], D["cz"], D["est"])), 1e-5),
        L("bayesian", lambda: fit(bay, D["x"], D["z"], D["est"]), 1e-5),
        L("bayesian 2", lambda: fit(bay, D["x2"], D["z2"], D["est"]), 1e-5),
        L("errors in variables", lambda: fit(eiv, D["x"], D["z"], None, None, D["est"]), 1e-5),
        L("errors in variables 2", lambda: fit(eiv, D["x2"], D["z2"], None, None, D["est"]), 1e-5),
        L("weighted errors in variables", lambda: fit(eiv, D["x"], D["z"], D["wx"], D["wz"], D["est"]), 1e-4),
        L("prior", lambda: list(D["prior"].log_distribution(D["at"]))),
        L("prior 2", lambda: list(D["prior2"].log_distribution(D["at"]))),
        L("copied prior", lambda: extended(D["prior"], "add_sparsity_prior", D["idx"], D["w"], 1)),
        L("copied prior exact", lambda: extended(D["prior"], "add_exact_prior", D["idx"], D["val"], D["w"], 2)),
        L("copied prior exact adaptive", lambda: extended(D["prior2"], "add_exact_adaptive_prior", D["idx"], D["val"], D["w"], 1)),
        L("copied prior adaptive", lambda: extended(D["prior2"], "add_adaptive_sparsity_prior", D["idx"], D["val"], 1)),
    ]
    if p > 2:
        ops += [L("copied prior contrast", lambda: extended(D["prior"], "add_contrast_prior", D["con"], D["rat"], None, 1)),
                L("copied prior ratios", lambda: extended(D["prior2"], "add_ratios_prior", D["con"], D["rat"], D["rat"], 2))]
    if p < 3:
        ops = [o for o in ops if "copied" not in o.name]
    ops = some(rng, ops, 9)
    case.cover("n=%d T=%d lap=%s %s %s" % (n, t, lap, cls.__name__, ",".join(sorted(o.name for o in ops))))
    session(case, D, ops, 24, ["x", "z", "x2", "z2", "est", "val", "rat", "at"])


@monitor(REGISTRY, quick=40, thorough=500, limit=300)
def identification_stages(case):
    """Stages of the identification on shared measurements."""
    from vf.props.c26 import Data, options
    rng = case.rng
    d = Data(rng, equal=True)
    k = d.where(1)
    n = len(k)
    y = d.y[np.ix_(k, k)]
    est = y + .05 * (lambda e: e + e.T)(gen.cplx(rng, (n, n), "gauss"))
    est3 = d.y + .05 * (lambda e: e + e.T)(gen.cplx(rng, d.y.shape, "gauss"))
    D = dict(v=d.v[:, k], i=d.i[:, k], p=d.p[k], est=est, v3=d.v, i3=d.i, ids=d.ids, p3=d.p, est3=est3)
    sv, si = d.sd
    name = "c25i%d" % case.index
    seed = int(rng.randint(2 ** 31 - 1))
    L = lambda name, fn, rtol=1e-5: Op(name, fn, seed, rtol)
    show = lambda r: [r[0], [(i.iteration, i.fitted_parameters, i.target_function) for i in r[1]]]
    pr = lambda q: list(q.log_distribution(np.linspace(-1, 2, q.n)))
    ops = [
        L("standard", lambda: idrun.standard_methods(name, D["v"], D["i"], None, d.lap, 2, False)),
        L("bayesian", lambda: show(idrun.bayesian_eiv(name, D["v"], D["i"], None, sv, si, D["p"], D["est"], None, d.lap, False, 2, True, False))),
        L("bayesian weighted", lambda: show(idrun.bayesian_eiv(name, D["v"], D["i"], None, sv, si, D["p"], D["est"], None, d.lap, True, 2, True, False)), 1e-4),
        L("uncertainty", lambda: list(idrun.eiv_fim(name, D["v"], D["i"], sv, si, D["p"], D["est"], 50, d.lap, False))),
        L("standard sequences", lambda: idrun3.standard_methods(name, D["v3"], D["i3"], D["ids"], d.lap, 2, False)),
        L("bayesian sequences", lambda: show(idrun3.bayesian_eiv(name, D["v3"], D["i3"], D["ids"], sv, si, D["p3"], D["est3"], None, d.lap, False, 2, True, False))),
        L("lasso prior", lambda: pr(idrun.build_lasso_prior(n, D["est"], d.lap))),
        L("prior", lambda: pr(idrun.build_complex_prior(n, 20., D["est"], d.lap))),
        L("prior total", lambda: pr(idrun.build_complex_prior(n, 20., D["est"], d.lap, True, False))),
        L("exact prior", lambda: pr(idrun.build_loads_id_prior(n, D["est"]))),
    ]
    ops = some(rng, ops, 6)
    case.cover("n=%d lap=%s %s" % (n, d.lap, ",".join(sorted(o.name for o in ops))))
    with options(rng):
        session(case, D, ops, 14, ["v", "i", "v3", "i3", "est", "est3", "p", "p3"])


@monitor(REGISTRY, quick=24, thorough=300, limit=400)
def networks(case):
    """Network building, reduction and the stages of the simulation on shared networks and templates."""
    rng = case.rng
    three = case.index % 4 == 3
    f = Feeder(rng, rng.randint(3, 5 if three else 8), three=three)
    n, ph = f.n, 3 if three else 1
    cls, sim, stage = (NetData3P, SimulatedNet3P, simrun3) if three else (NetData, SimulatedNet, simrun)
    buses, lns = f.buses(), [f.line_data(l) for l in f.lines]
    types = f.std_types() if three else {}
    mk = (lambda c: c(types, buses, lns)) if three else (lambda c: c(buses, lns))
    net = mk(sim)
    net.name = "c25n%d" % case.index
    t = 3
    loads = len(net.load)
    lp = np.tile(net.load.p_mw.values, (t, 1)) * rng.uniform(.5, 1.5, (t, loads))
    lq = np.tile(net.load.q_mvar.values, (t, 1)) * rng.uniform(.5, 1.5, (t, loads))
    v, i = 1 + .01 * gen.cplx(rng, (6, n * ph), "gauss"), gen.cplx(rng, (6, n * ph), "gauss")
    full = f.y3() if three else f.y()
    loaded = [b for k, b in enumerate(f.ids) if k != f.pcc and np.all(f.p[k] != 0)]
    D = dict(buses=buses, lines=lns, types=types, net=net, lp=lp, lq=lq, v=v, i=i, full=full, ids=list(f.ids),
             hidden=[int(b) for b in loaded[:1]], tored=[int(k) for k in rng.permutation(n * ph)[:1]],
             times=np.arange(6) * 60., weeks=np.array([0]), tmpl=bus_data(77, 1, .1, .05, f.kv))
    if three:
        D["asym"] = [np.tile(net.asymmetric_load[c].values, (t, 1)) * 1.01 for c in
                     ("p_a_mw", "p_b_mw", "p_c_mw", "q_a_mvar", "q_b_mvar", "q_c_mvar")]
    cli.install(net.name, f)
    from src.simulation import net_templates, net_templates_3ph
    mod = net_templates_3ph if three else net_templates
    D["template buses"] = getattr(mod, net.name + "_bus")
    D["template lines"] = getattr(mod, net.name + "_net")
    p0 = outdir(case, "load")
    np.save(p0 / "p.npy", np.abs(rng.randn(1500, 4)) * 500)
    np.save(p0 / "q.npy", np.abs(rng.randn(1500, 4)) * 300)
    seed = int(rng.randint(2 ** 31 - 1))
    L = lambda name, fn, rtol=1e-8: Op(name, fn, seed, rtol)

    def other():
        q = cls({}, other=D["net"]) if three else cls(other=D["net"])
        q.create_buses([D["tmpl"]])
        return [len(q.bus)]

    def copied(fn):
        q = copy.deepcopy(D["net"])
        fn(q)
        return q

    D["noise"] = (1e-4, 1e-4, 1e-4, 1e-4, bool(rng.randint(2)), 4 * np.ones(3) if three else 4)
    ops = [
        L("build", lambda: mk(cls)),
        L("make_net", lambda: stage.make_net(net.name)[0]),
        L("admittance matrix", lambda: D["net"].make_y_bus()),
        L("passive nodes", lambda: list(D["net"].give_passive_nodes())),
        L("reduction", lambda: D["net"].kron_reduction(D["tored"], D["full"])),
        L("own reduction", lambda: D["net"].kron_reduction(D["tored"])),
        L("remove a line", lambda: copied(lambda q: q.remove_line(q.line.index[0]))),
        L("remove a bus", lambda: copied(lambda q: q.remove_buses([D["ids"][(f.pcc + 1) % n]]))),
        L("noise and filter", lambda: stage.add_noise_and_filter(D["net"], D["v"], D["i"], D["times"], .2, 20, D["noise"], False)),
        L("random loads", lambda: stage.generate_loads(D["net"], (None, None, .1, cli.Days(4, 1440), D["hidden"]), False)),
        L("profile loads", lambda: stage.generate_loads(D["net"], (p0 / "p.npy", p0 / "q.npy", D["weeks"], cli.Days(4, 1440),
                                                                   D["hidden"]), False)),
        L("reduce", lambda: stage.reduce_network(D["net"], D["v"], D["i"], D["hidden"], False, verbose=False)),
        L("reduce laplacian", lambda: stage.reduce_network(D["net"], D["v"], D["i"], D["hidden"], True, verbose=False)),
    ]
    if three:
        ops += [L("simulate", lambda: stage.simulate_net(D["net"], D["lp"], D["lq"], D["asym"], False), 1e-6)]
    else:
        ops += [L("simulate", lambda: stage.simulate_net(D["net"], D["lp"], D["lq"], False), 1e-6),
                L("power flow series", lambda: D["net"].run(D["lp"], D["lq"], output_path=outdir(case), verbose=False,
                                                            calculate_voltage_angles=True).get_current_and_voltage(), 1e-6),
                L("lines from a matrix", lambda: NetData(D["buses"]).create_lines_from_ybus(D["full"])),
                L("copy of a network", other)]
    if np.any(f.p < 0):
        ops = [o for o in ops if o.name != "profile loads"]
    heavy = [o for o in ops if o.name in ("simulate", "power flow series")]
    ops = some(rng, [o for o in ops if o not in heavy], 7) + (heavy[:1] if rng.rand() < .5 else [])
    case.cover("n=%d three=%s %s" % (n, three, ",".join(sorted(o.name for o in ops))))
    session(case, D, ops, 6 if three else 16, ["lp", "lq", "v", "i", "full", "net"])
