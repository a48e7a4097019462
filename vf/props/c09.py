"""C09: error-in-variables MAP. Every iterate and target of the real fits is judged against its two sub-problems."""
import numpy as np
from scipy import sparse as sp
from src.models import matrix_operations as mo
from src.models import noise_transformation as nt
from src.models.error_in_variable import BayesianEIVRegression
from src.models.smooth_prior import SmoothPrior
from vf.core import monitor, Frozen, dense
from vf import gen
from vf.props.c08 import forms, builders, make_prior, energy, new_model, stopping, nothing, record, unchanged

REGISTRY = []


def f32(a):
    return np.asarray(a, dtype=np.float32).astype(float)


def weight(rng, z, kind):
    """Positive definite weight of size 2Tn, exactly representable in single precision."""
    k = z.size
    if kind == "scalar":
        w = sp.eye(2 * k) * f32(10. ** rng.uniform(-1, 1.5))
    elif kind == "diag":
        w = sp.diags(f32(10. ** rng.uniform(-1, 1.5, 2 * k)))
    elif kind == "blocks":
        a, b = f32(rng.uniform(.5, 20, k)), f32(rng.uniform(.5, 20, k))
        c = f32(rng.uniform(-.8, .8, k) * np.sqrt(a * b))
        w = sp.bmat([[sp.diags(a), sp.diags(c)], [sp.diags(c), sp.diags(b)]])
    elif kind == "polar":
        w = nt.average_true_noise_covariance(z + .5, rng.uniform(.05, .5), rng.uniform(.05, .5), inverted=True)
        w = sp.csr_matrix(f32(dense(w)))
    else:
        q = rng.randn(2 * k, 2 * k) / np.sqrt(2 * k)
        w = sp.csr_matrix(f32(q @ q.T + np.eye(2 * k) * rng.uniform(.2, 2)))
        w = (w + w.T) / 2
    return gen.pick(rng, sp.csr_matrix, sp.csc_matrix, sp.csr_matrix)(w)


def setting(rng, weighted, big=False):
    n = rng.randint(2, 5) if not big else rng.randint(4, 8)
    kind = gen.pick(rng, "full", "sym", "lap")
    t = 2 * n + (rng.randint(1, 14) if not big else rng.randint(20, 50) if weighted else rng.randint(50, 120))
    y = gen.laplacian(rng, n, .6) if kind != "full" or rng.rand() < .4 else gen.cplx(rng, (n, n), "gauss")
    x = gen.cplx(rng, (t, n), "gauss")
    e = gen.pick(rng, .001, .03, .2)
    z = x @ y + e * gen.cplx(rng, (t, n), "gauss")
    xm = x + e * gen.cplx(rng, (t, n), "gauss")
    p = 2 * forms(n, kind)[0].shape[0]
    d = gen.cplx(rng, (n, n), "gauss")
    init = y + gen.pick(rng, 0, .2) * (d if kind == "full" else d + d.T)
    if weighted:
        k = gen.pick(rng, "scalar", "diag", "blocks", "polar", "full")
        k2 = gen.pick(rng, "scalar", "diag", "blocks", "polar", "full")
        wx, wz, wn = weight(rng, xm, k), weight(rng, z, k2), k + "/" + k2
    else:
        wx = wz = None
        wn = "none"
    if rng.rand() < .5:  # other units: per unit, kilovolts, milliamperes (powers of two keep the weights exact)
        sx = 2. ** rng.randint(-14, 11)
        sz = 2. ** rng.randint(-14, 11) if weighted else sx
        xm, z, y, init = xm * sx, z * sz, y * (sz / sx), init * (sz / sx)
        if weighted:
            wx, wz = wx / sx ** 2, wz / sz ** 2
        wn += " units %g %g" % (sx, sz)
    if weighted and wx.shape[0] < 250 and rng.rand() < .25:
        wx, wz = gen.pick(rng, (lambda w: w.tocoo()), (lambda w: w.toarray()), (lambda w: w))(wx), \
            gen.pick(rng, (lambda w: w.tocoo()), (lambda w: w.toarray()), (lambda w: w))(wz)
    return n, kind, t, xm, z, y, p, init, wx, wz, wn


def run(case, weighted):
    rng = case.rng
    n, kind, t, x, z, ytrue, p, init, wx, wz, wn = setting(rng, weighted, case.index % 15 == 14)
    prior, pk = make_prior(rng, p, gen.pick(rng, 1e-3, .1))
    kw = new_model(case, prior, kind, gen.pick(rng, 1, 2, rng.randint(2, 12), 25))
    if case.index % 12 == 7:
        z, init, prior = nothing(rng, x, z, init, p)
    case.cover("%s n=%d T=%d w=%s %s lambda=%.2g its=%d" % (kind, n, t, wn, ",".join(pk), kw["lambda_value"], kw["max_iterations"]))
    m = BayesianEIVRegression(prior, **kw, **builders(kind))
    fr = Frozen(x=x, z=z, init=init, prior=prior, wx=wx, wz=wz)
    m.fit(x, z, wx, wz, init)
    fr.verify(case, "fit")
    its, lam = m.iterations, kw["lambda_value"]
    case.check(len(its) > 0, "iterations are reported")
    e, d = forms(n, kind)
    big_a = lambda xx: mo.make_real_matrix(np.kron(np.eye(n), xx) @ d)
    a, b = mo.make_real_vector(mo.vectorize_matrix(x)), mo.make_real_vector(mo.vectorize_matrix(z))
    dx = dense(wx) if weighted else np.eye(a.size)
    dz = dense(wz) if weighted else np.eye(b.size)
    ym, y = init, mo.make_real_vector(e @ mo.vectorize_matrix(init))
    obj = None
    for s in its:
        # optimal input correction for the current parameters
        u = mo.make_real_matrix(np.kron(ym.T, np.eye(t)))
        da = np.linalg.solve(u.T @ dz @ u + dx, u.T @ dz @ (u @ a - b))
        ac = big_a(x - mo.unvectorize_matrix(mo.make_complex_vector(da), x.shape))
        q, mu, _ = prior.log_distribution(y)
        h, rhs = ac.T @ dz @ ac + lam * dense(q), ac.T @ dz @ b + lam * np.ravel(dense(mu))
        ynm = s.fitted_parameters
        case.check(ynm.shape == (n, n), "iterate is an n by n matrix", ynm.shape)
        yn = mo.make_real_vector(e @ mo.vectorize_matrix(ynm))
        case.close(mo.unvectorize_matrix(d @ mo.make_complex_vector(yn), (n, n)), ynm, "iterate has the parametrised structure", 1e-7)
        cond = np.linalg.cond(h)
        if cond < 1e5:
            case.close(yn, np.linalg.solve(h, rhs), "iterate %d is optimal for the corrected inputs and the prior" % s.iteration,
                       2e-6 * np.sqrt(cond) + 1e-6 + 1e-8 * cond)
            case.event("iterates")
        res = np.linalg.norm(h @ yn - rhs)
        case.check(res <= 3e-5 * (np.linalg.norm(h) * np.linalg.norm(yn) + np.linalg.norm(rhs)),
                   "iterate %d satisfies the normal equations of the corrected inputs" % s.iteration, res)
        _, _, pen = prior.log_distribution(yn)
        db = b - ac @ yn
        cost = float(db @ dz @ db + da @ dx @ da)
        ref = float(b @ dz @ b + a @ dx @ a)
        case.close(s.target_function, cost + lam * pen, "target of iterate %d is both misfits plus weighted penalty" % s.iteration,
                   2e-4, 1e-8 * ref)
        o = cost + lam * energy(prior, yn)
        if obj is not None:
            case.check(not o > obj + 1e-5 * abs(obj) + 1e-7 * ref, "smoothed objective increases at iterate %d" % s.iteration, obj, o)
        obj = o
        ym, y = ynm, yn
    case.same(m.fitted_admittance_matrix, its[-1].fitted_parameters, "the estimate is the last iterate")
    stopping(case, its, kw)


@monitor(REGISTRY, quick=135, thorough=3000)
def weighted_iterates(case):
    run(case, True)


@monitor(REGISTRY, quick=75, thorough=2000)
def unweighted_iterates(case):
    run(case, False)


@monitor(REGISTRY, quick=45, thorough=1000)
def identity_weights(case):
    """No weights are identity weights."""
    rng = case.rng
    n, kind, t, x, z, ytrue, p, init, _, _, _ = setting(rng, False)
    prior, pk = make_prior(rng, p, .05)
    kw = dict(lambda_value=10. ** rng.uniform(-4, 0), abs_tol=0, rel_tol=0, max_iterations=int(rng.randint(1, 6)), verbose=case.verbose)
    case.cover("%s n=%d T=%d %s its=%d" % (kind, n, t, ",".join(pk), kw["max_iterations"]))
    a, b = (BayesianEIVRegression(prior, **kw, **builders(kind)) for _ in range(2))
    a.fit(x, z, None, None, init)
    w = sp.eye(2 * x.size, format="csr")
    b.fit(x, z, w, w.copy(), init)
    case.check(len(a.iterations) == len(b.iterations), "as many iterations")
    # the first iterates agree to single precision; later ones may separate at sparsity kinks
    s, r = a.iterations[0], b.iterations[0]
    case.close(s.fitted_parameters, r.fitted_parameters, "unweighted and identity weighted first iterate", 2e-4)
    case.close(s.target_function, r.target_function, "unweighted and identity weighted first target", 2e-4, 1e-6)


@monitor(REGISTRY, quick=60, thorough=1500)
def truth_is_fixed(case):
    """Noise-free data with a negligible prior keep the true parameters."""
    rng = case.rng
    n = rng.randint(2, 5)
    kind = gen.pick(rng, "full", "sym", "lap")
    y = gen.laplacian(rng, n) if kind != "full" else gen.cplx(rng, (n, n), "gauss")
    t = 2 * n + rng.randint(1, 14)
    x = gen.cplx(rng, (t, n), "gauss")
    z = x @ y
    w = rng.rand() < .7
    wx, wz = (weight(rng, x, "diag"), weight(rng, z, "blocks")) if w else (None, None)
    p = 2 * forms(n, kind)[0].shape[0]
    prior, pk = make_prior(rng, p, 1e-2)
    m = BayesianEIVRegression(prior, lambda_value=1e-12, max_iterations=int(rng.randint(1, 8)), verbose=case.verbose, **builders(kind))
    m.fit(x, z, wx, wz, y)
    case.cover("%s n=%d T=%d weighted=%s" % (kind, n, t, w))
    case.close(m.fitted_admittance_matrix, y, "noise-free data keep the true parameters", 1e-4)
    case.check(m.iterations[-1].target_function < 1e-6 * (1 + np.linalg.norm(z) ** 2), "no misfit", m.iterations[-1].target_function)


@monitor(REGISTRY, quick=45, thorough=800)
def reuse(case):
    rng = case.rng
    n, kind, t, x, z, ytrue, p, init, wx, wz, wn = setting(rng, rng.rand() < .6)
    prior, pk = make_prior(rng, p, 1e-2)
    kw = new_model(case, prior, kind, gen.pick(rng, 1, 3, 12))
    m = BayesianEIVRegression(prior, **kw, **builders(kind))
    prev, log = None, []
    buf, last = gen.Buffers(rng), None
    init0 = init
    for k in range(rng.randint(2, 5)):
        if last is not None and rng.rand() < .5:
            x, z, init = last
            c = rng.randint(3)
            x, z, init = (gen.nearby(rng, x), z, init) if c == 0 else (x, gen.nearby(rng, z), init) if c == 1 else (x, z, 1.2 * init)
        else:
            t = 2 * n + rng.randint(1, 14)
            x = gen.cplx(rng, (t, n), "gauss")
            z = x @ ytrue + .1 * gen.cplx(rng, (t, n), "gauss")
            init = init0
        last = x.copy(), z.copy(), init.copy()
        x, z, init = buf("x", x), buf("z", z), buf("i", init)
        if rng.rand() < .6:
            wx, wz = weight(rng, x, "diag"), weight(rng, z, "blocks")
        else:
            wx = wz = None
        f = BayesianEIVRegression(prior, **kw, **builders(kind))
        m.fit(x, z, wx, wz, init)
        f.fit(x.copy(), z.copy(), *(None if w is None else w.copy() for w in (wx, wz)), init.copy())
        log.append(len(m.iterations))
        case.check(len(m.iterations) == len(f.iterations), "fit %d has as many iterations as a fresh one" % k)
        case.same(m.fitted_admittance_matrix, f.fitted_admittance_matrix, "fit %d equals a fresh fit" % k)
        for s, r in zip(m.iterations, f.iterations):
            case.same(s.fitted_parameters, r.fitted_parameters, "iterate of fit %d equals a fresh one" % k)
            case.check(s.iteration == r.iteration and s.target_function == r.target_function, "targets equal fresh ones", s, r)
        if prev is not None:
            case.same(prev[0], prev[1], "an earlier estimate stays as it was")
            unchanged(case, prev[2])
        prev = (m.fitted_admittance_matrix, m.fitted_admittance_matrix.copy(), record(m))
    m2 = BayesianEIVRegression(prior, max_iterations=0, verbose=case.verbose, **builders(kind))
    m2.fit(x, z, wx, wz, init)
    case.same(m2.fitted_admittance_matrix, init, "no iteration keeps the initial guess")
    case.cover("%s n=%d %s its=%s" % (kind, n, ",".join(pk), log))
