"""C08: regularised regression. Observes every iterate and target of the real fits."""
import numpy as np
from src.models import matrix_operations as mo
from src.models.regression import BayesianRegression
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
from vf.core import monitor, Frozen, dense
from vf import gen

REGISTRY = []


def forms(n, kind):
    """Compression and expansion matrices of a parametrisation, and their builders."""
    if kind == "full":
        return np.eye(n * n), np.eye(n * n)
    e, d = mo.elimination_sym_matrix(n), mo.duplication_matrix(n).astype(float)
    if kind == "sym":
        return e, d
    return mo.elimination_lap_matrix(n) @ e, d @ mo.transformation_matrix(n)


def builders(kind):
    if kind == "full":
        return {}
    return {"e_matrix_builder": lambda n: forms(n, kind)[0], "dt_matrix_builder": lambda n: forms(n, kind)[1]}


def make_prior(rng, p, alpha, cls=None):
    cls = cls or gen.pick(rng, SmoothPrior, SparseSmoothPrior)
    pr = cls(alpha, p)
    kinds = []
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(1, p + 1)
        idx = np.sort(rng.permutation(p)[:k])
        o = gen.pick(rng, 0, 1, 1, 2)
        c = rng.randint(4)
        if c == 0:
            pr.add_sparsity_prior(idx, rng.uniform(.3, 2, k), o)
        elif c == 1:
            pr.add_exact_prior(idx, rng.randn(k), None, o)
        elif c == 2:
            pr.add_adaptive_sparsity_prior(idx, rng.uniform(.5, 3, k), o)
        else:
            pr.add_contrast_prior(idx[None, :], np.array([rng.uniform(.5, 3)]), gen.pick(rng, None, 2.), o)
        kinds.append("%s%d" % ("sxac"[c], o))
    return pr, kinds


def energy(prior, y):
    """Objective whose majorisation the reweighting is: sum of phi(residual), phi' = 2r / (|r|^(2-order) + alpha)."""
    if not all(hasattr(prior, k) for k in ("L", "mu", "alpha", "gamma")):
        return np.nan  # stored in another way: no objective to follow
    r = np.abs(np.ravel(dense(prior.L @ y)) - prior.mu)
    a, g = prior.alpha, np.asarray(prior.gamma, dtype=float)
    out = np.where(g == 2, r * r / (1 + a), np.where(g == 1, 2 * (r - a * np.log1p(r / a)), np.log1p(r * r / a)))
    return float(np.sum(out))


def setting(rng, nmax=4, big=False):
    n = rng.randint(2, nmax + 1) if not big else rng.randint(5, 11)
    kind = gen.pick(rng, "full", "sym", "lap")
    t = n + rng.randint(2, 25) if not big else rng.randint(50, 600)
    y = gen.laplacian(rng, n, .6) if kind != "full" or rng.rand() < .5 else gen.cplx(rng, (n, n), "gauss")
    x = gen.cplx(rng, (t, n), "gauss")
    z = x @ y + gen.pick(rng, 0, .01, .3) * gen.cplx(rng, (t, n), "gauss")
    p = 2 * forms(n, kind)[0].shape[0]
    init = gen.pick(rng, y * 1., y + .3 * (lambda s: s + s.T)(gen.cplx(rng, (n, n), "gauss")), np.zeros((n, n), complex) + 1e-3)
    if rng.rand() < .4:  # other units
        sx, sz = 10. ** rng.uniform(-4, 3, 2)
        x, z, y, init = x * sx, z * sz, y * (sz / sx), init * (sz / sx)
    return n, kind, t, x, z, y, p, init


def nothing(rng, x, z, init, p):
    """Dead instruments: no signal, no guess and beliefs that nothing is there, an exact fixed point from the start."""
    prior = gen.pick(rng, SmoothPrior, SparseSmoothPrior)(gen.pick(rng, 1e-3, .1), p)
    prior.add_sparsity_prior(np.arange(p), rng.uniform(.3, 2, p), gen.pick(rng, 0, 1, 2))
    return 0 * z, 0 * init, prior


def new_model(case, prior, kind, its=None):
    rng = case.rng
    kw = dict(lambda_value=10. ** rng.uniform(-6, 1), abs_tol=10. ** rng.uniform(-9, -2), rel_tol=10. ** rng.uniform(-9, -2),
              max_iterations=int(its if its is not None else gen.pick(rng, 1, 2, rng.randint(2, 30), 60)), verbose=case.verbose)
    return kw


def record(m):
    """The reported iterations, and what they said when they were handed out."""
    its = m.iterations
    return its, [(s.iteration, np.array(s.fitted_parameters), s.target_function) for s in its]


def unchanged(case, rec):
    its, was = rec
    case.check(len(its) == len(was), "an earlier record of iterations stays as it was", len(its), len(was))
    for s, (k, y, f) in zip(its, was):
        case.same(s.fitted_parameters, y, "an earlier record of iterations stays as it was")
        case.check(s.iteration == k and s.target_function == f, "an earlier record of iterations stays as it was", s)


def stopping(case, its, kw):
    """Iteration numbers, limit, and that the loop ends exactly when the target settles (borderline values excepted)."""
    f = [s.target_function for s in its]
    case.check([s.iteration for s in its] == list(range(len(its))), "iterations are numbered from zero", [s.iteration for s in its])
    case.check(len(its) <= kw["max_iterations"], "iteration limit", len(its), kw["max_iterations"])
    case.check(all(np.ndim(v) == 0 and np.isfinite(v) for v in f), "targets are finite numbers", f)
    for k in range(1, len(f)):
        d = f[k - 1] - f[k]
        slack = 1 + 1e-9
        settled = d >= 0 and (d < kw["abs_tol"] * slack or d < kw["rel_tol"] * f[k - 1] * slack)
        surely = d >= 0 and (d < kw["abs_tol"] / slack or d < kw["rel_tol"] * f[k - 1] / slack)
        if k < len(f) - 1:
            case.check(not surely, "settled target ends the iterations", k, f[k - 1], f[k], kw)
        elif len(f) < kw["max_iterations"]:
            case.check(settled, "iterations end only when the target has settled", k, f[k - 1], f[k], kw)
            case.event("stopped by tolerance")
    if len(f) == 1:
        case.check(kw["max_iterations"] == 1, "iterations end only when the target has settled", kw)
    if len(f) == kw["max_iterations"]:
        case.event("stopped by limit")


@monitor(REGISTRY, quick=176, thorough=4000)
def iterates(case):
    rng = case.rng
    n, kind, t, x, z, ytrue, p, init = setting(rng, big=case.index % 12 == 11)
    alpha = gen.pick(rng, 1e-5, 1e-3, .1)
    prior, pk = make_prior(rng, p, alpha)
    kw = new_model(case, prior, kind)
    if case.index % 15 == 7:
        z, init, prior = nothing(rng, x, z, init, p)
    case.cover("%s n=%d T=%d %s %s lambda=%.2g its=%d" % (kind, n, t, type(prior).__name__, ",".join(pk), kw["lambda_value"],
                                                         kw["max_iterations"]))
    m = BayesianRegression(prior, **kw, **builders(kind))
    fr = Frozen(x=x, z=z, init=init, prior=prior)
    m.fit(x, z, init)
    fr.verify(case, "fit")
    its = m.iterations
    case.check(len(its) > 0, "iterations are reported")
    e, d = forms(n, kind)
    lam = kw["lambda_value"]
    a = mo.make_real_matrix(np.kron(np.eye(n), x) @ d)
    b = mo.make_real_vector(mo.vectorize_matrix(z))
    y = mo.make_real_vector(e @ mo.vectorize_matrix(init))
    obj = None
    for s in its:
        q, mu, pen = prior.log_distribution(y)
        h, rhs = a.T @ a + lam * dense(q), a.T @ b + lam * np.ravel(dense(mu))
        ym = s.fitted_parameters
        case.check(ym.shape == (n, n), "iterate is an n by n matrix", ym.shape)
        ynew = mo.make_real_vector(e @ mo.vectorize_matrix(ym))
        case.close(mo.unvectorize_matrix(d @ mo.make_complex_vector(ynew), (n, n)), ym, "iterate has the parametrised structure", 1e-8)
        if np.linalg.cond(h) < 1e9:
            case.close(ynew, np.linalg.solve(h, rhs), "iterate %d solves the reweighted problem" % s.iteration,
                       1e-13 * np.linalg.cond(h) + 1e-9)
            case.event("iterates")
        r = h @ ynew - rhs
        case.check(np.linalg.norm(r) <= 1e-8 * (np.linalg.norm(h) * np.linalg.norm(ynew) + np.linalg.norm(rhs)),
                   "iterate %d satisfies the normal equations" % s.iteration, np.linalg.norm(r))
        y = ynew
        _, _, pen = prior.log_distribution(y)
        cost = float(np.sum((b - a @ y) ** 2))
        case.close(s.target_function, cost + lam * pen, "target of iterate %d is misfit plus weighted penalty" % s.iteration,
                   1e-8, 1e-10 * float(b @ b))
        o = cost + lam * energy(prior, y)
        if obj is not None:
            case.check(not o > obj + 1e-8 * abs(obj) + 1e-10 * float(b @ b), "smoothed objective increases at iterate %d" % s.iteration, obj, o)
        obj = o
    case.same(m.fitted_admittance_matrix, its[-1].fitted_parameters, "the estimate is the last iterate")
    stopping(case, its, kw)


@monitor(REGISTRY, quick=48, thorough=1000)
def optimum(case):
    """With absolute-value or Gaussian beliefs the objective is convex: many iterations reach its minimum."""
    rng = case.rng
    n, kind, t, x, z, ytrue, p, init = setting(rng, 3)
    prior = SmoothPrior(.05, p)
    prior.add_sparsity_prior(np.arange(p), rng.uniform(.3, 2, p), 1)
    if rng.rand() < .5:
        prior.add_exact_prior(np.arange(p), rng.randn(p), None, 2)
    lam = 10. ** rng.uniform(-2, .5)
    m = BayesianRegression(prior, lambda_value=lam, abs_tol=0, rel_tol=0, max_iterations=400, verbose=case.verbose, **builders(kind))
    m.fit(x, z, init)
    case.cover("%s n=%d lambda=%.2g" % (kind, n, lam))
    e, d = forms(n, kind)
    a = mo.make_real_matrix(np.kron(np.eye(n), x) @ d)
    b = mo.make_real_vector(mo.vectorize_matrix(z))
    y = mo.make_real_vector(e @ mo.vectorize_matrix(m.fitted_admittance_matrix))
    q, mu, _ = prior.log_distribution(y)
    g = a.T @ (a @ y - b) + lam * (dense(q) @ y - np.ravel(mu))
    case.check(np.linalg.norm(g) <= 1e-5 * (np.linalg.norm(a.T @ b) + 1), "gradient of the smoothed objective vanishes", g)
    best = np.sum((b - a @ y) ** 2) + lam * energy(prior, y)
    for _ in range(6):
        v = y + rng.randn(p) * 10. ** rng.uniform(-4, 0)
        o = np.sum((b - a @ v) ** 2) + lam * energy(prior, v)
        case.check(not o < best - 1e-6 * abs(best), "no other candidate has a smaller objective", o, best)


@monitor(REGISTRY, quick=64, thorough=1500)
def reuse(case):
    rng = case.rng
    kind = gen.pick(rng, "full", "sym", "lap")
    n = rng.randint(2, 4)
    p = 2 * forms(n, kind)[0].shape[0]
    prior, pk = make_prior(rng, p, 1e-3)
    kw = new_model(case, prior, kind, gen.pick(rng, 1, 3, 20))
    m = BayesianRegression(prior, **kw, **builders(kind))
    log, prev = [], None
    buf, last = gen.Buffers(rng), None
    for k in range(rng.randint(2, 6)):
        if last is not None and rng.rand() < .5:
            x, z, y = last
            c = rng.randint(3)
            x, z, y = (gen.nearby(rng, x), z, y) if c == 0 else (x, gen.nearby(rng, z), y) if c == 1 else (x, z, 1.2 * y)
        else:
            t = n + rng.randint(1, 20)
            x, y = gen.cplx(rng, (t, n), "gauss"), gen.laplacian(rng, n)
            z = x @ y + .1 * gen.cplx(rng, (t, n), "gauss")
        last = x.copy(), z.copy(), y.copy()
        x, z, y = buf("x", x), buf("z", z), buf("y", y)
        m.fit(x, z, y)
        f = BayesianRegression(prior, **kw, **builders(kind))
        f.fit(x.copy(), z.copy(), y.copy())
        log.append(len(m.iterations))
        case.check(len(m.iterations) == len(f.iterations), "fit %d has as many iterations as a fresh one" % k,
                   len(m.iterations), len(f.iterations))
        case.same(m.fitted_admittance_matrix, f.fitted_admittance_matrix, "fit %d equals a fresh fit" % k)
        for s, r in zip(m.iterations, f.iterations):
            case.same(s.fitted_parameters, r.fitted_parameters, "iterate of fit %d equals a fresh one" % k)
            case.check(s.iteration == r.iteration and s.target_function == r.target_function, "targets equal fresh ones", s, r)
        if prev is not None:
            case.same(prev[0], prev[1], "an earlier estimate stays as it was")
            unchanged(case, prev[2])
        prev = (m.fitted_admittance_matrix, m.fitted_admittance_matrix.copy(), record(m))
    case.cover("%s n=%d %s its=%s" % (kind, n, ",".join(pk), log))


@monitor(REGISTRY, quick=32, thorough=300)
def limits(case):
    """No iterations allowed: the initial guess is the estimate. Negligible prior: ordinary least squares."""
    rng = case.rng
    n, kind, t, x, z, ytrue, p, init = setting(rng)
    prior, pk = make_prior(rng, p, 1e-3)
    m = BayesianRegression(prior, lambda_value=.1, max_iterations=0, verbose=case.verbose, **builders(kind))
    m.fit(x, z, init)
    case.cover("%s n=%d" % (kind, n))
    case.same(m.fitted_admittance_matrix, init, "no iteration keeps the initial guess")
    case.check(len(m.iterations) == 0, "no iteration is reported")
    y = gen.laplacian(rng, n)
    m = BayesianRegression(prior, lambda_value=1e-13, max_iterations=5, verbose=case.verbose, **builders(kind))
    m.fit(x, x @ y, init)
    case.close(m.fitted_admittance_matrix, y, "noise-free data and a negligible prior give the true parameters", 1e-6)
