"""C06: total least squares."""
import numpy as np
from src.models.error_in_variable import TotalLeastSquares
from vf.core import monitor, Frozen
from vf import gen

REGISTRY = []


def fit(x, z, model=None):
    m = model or TotalLeastSquares()
    m.fit(x, z)
    return m.fitted_admittance_matrix


def problem(rng):
    """Data with noise on both sides and a clear gap between signal and noise directions; or arbitrary data."""
    n, m = rng.randint(1, 7), gen.pick(rng, 1, rng.randint(1, 6))
    if rng.rand() < .3:
        m = n
    t = n + m + (rng.randint(0, 40) if rng.rand() < .8 else rng.randint(40, 300))
    cx = rng.rand() < .8
    g = (lambda *s: gen.cplx(rng, s, "gauss")) if cx else (lambda *s: gen.real(rng, s, "gauss"))
    x, y = g(t, n), g(n, m)
    e = gen.pick(rng, 1e-4, .01, .1, .5, 2.)
    d = np.hstack((x + e * g(t, n), x @ y + e * g(t, m))) * gen.pick(rng, 1., 1., 10. ** rng.uniform(-9, 9))
    return n, m, t, d[:, :n], d[:, n:], e


def gap(x, z):
    d = np.hstack((x, z.reshape(len(z), -1)))
    s = np.linalg.svd(d, compute_uv=False)
    n = x.shape[1]
    return s, (s[n - 1] - s[n]) / s[0], np.linalg.cond(np.linalg.svd(d)[2][n:, n:])


@monitor(REGISTRY, quick=400, thorough=4000)
def optimal(case):
    rng = case.rng
    n, m, t, x, z, e = problem(rng)
    one = m == 1 and rng.rand() < .6
    zz = z[:, 0] if one else z
    s, g, c = gap(x, z)
    ok = g > 1e-4 and c < 1e4
    case.cover("T=%d n=%d m=%d 1d=%s e=%g" % (t, n, m, one, e), ok)
    fr = Frozen(x=x, z=zz)
    y = fit(x, zz)
    fr.verify(case, "fit")
    if m > 1:
        case.check(y.shape == (n, m), "shape of the estimate", y.shape)
    else:
        case.check(y.size == n and (not one or y.shape == (n,)), "single output problem keeps its shape", y.shape)
    if not ok:
        return case.event("ill posed")
    ym = y.reshape(n, m)
    nn = np.vstack((ym, -np.eye(m)))
    d = np.hstack((x, z))
    p = nn @ np.linalg.solve(nn.conj().T @ nn, nn.conj().T)
    corr = d @ p
    best = np.sqrt(np.sum(s[n:] ** 2))
    case.close(np.linalg.norm(corr), best, "distance to the nearest consistent data", 1e-6, 1e-10 * s[0])
    fixed = d - corr
    case.close(fixed[:, :n] @ ym, fixed[:, n:], "consistent with the corrected data", 1e-7, 1e-8 * s[0])
    for _ in range(4):
        y2 = ym + gen.cplx(rng, (n, m), "gauss") * 10. ** rng.uniform(-4, 0)
        n2 = np.vstack((y2, -np.eye(m)))
        d2 = np.linalg.norm(d @ n2 @ np.linalg.inv(np.linalg.cholesky(n2.conj().T @ n2)).conj().T)
        case.check(d2 >= best * (1 - 1e-6) - 1e-10 * s[0], "no other candidate needs a smaller correction", d2, best)


@monitor(REGISTRY, quick=200, thorough=2000)
def noise_free(case):
    rng = case.rng
    n = rng.randint(1, 8)
    m = gen.pick(rng, 1, n, rng.randint(1, 6))
    t = n + m + (rng.randint(0, 30) if rng.rand() < .8 else rng.randint(40, 300))
    x, y = gen.cplx(rng, (t, n), "gauss"), gen.cplx(rng, (n, m), "gauss")
    if rng.rand() < .4 and n > 1:
        m, y, t = n, gen.laplacian(rng, n), t + n
        x = gen.cplx(rng, (t, n), "gauss")
    s, g, c = gap(x, x @ y)
    case.cover("T=%d n=%d m=%d" % (t, n, m), g > 1e-4 and c < 1e3)
    if g > 1e-4 and c < 1e3:
        case.close(np.reshape(fit(x, x @ y), (n, m)), y, "exact parameters from noise-free data", 1e-8)
        if m == 1:
            case.close(fit(x, (x @ y)[:, 0]), y[:, 0], "exact parameters, single output", 1e-8)


@monitor(REGISTRY, quick=240, thorough=2500)
def equivariance(case):
    rng = case.rng
    n, m, t, x, z, e = problem(rng)
    s, g, c = gap(x, z)
    ok = g > 1e-3 and c < 1e3
    case.cover("T=%d n=%d m=%d e=%g" % (t, n, m, e), ok)
    f = lambda a, b: np.reshape(fit(a, b), (a.shape[1], -1))
    y = f(x, z)
    case.check(np.all(np.isfinite(y)), "finite estimate", y)
    if not ok:
        return case.event("ill posed")
    a = complex(*rng.uniform(.3, 3, 2))
    case.close(f(a * x, a * z), y, "common scaling", 1e-6)
    p = rng.permutation(t)
    case.close(f(x[p], z[p]), y, "order of the samples", 1e-6)
    u, v, w = gen.unitary(rng, n), gen.unitary(rng, m), gen.unitary(rng, t)
    case.close(f(x @ u, z), u.conj().T @ y, "unitary change of inputs", 1e-6)
    case.close(f(x, z @ v), y @ v, "unitary change of outputs", 1e-6)
    case.close(f(w @ x, w @ z), y, "unitary mix of the samples", 1e-6)
    q, r = rng.permutation(n), rng.permutation(m)
    case.close(f(x[:, q], z[:, r]), y[q][:, r], "order of the channels", 1e-6)
    case.close(f(x.conj(), z.conj()), y.conj(), "conjugated data", 1e-6)
    if n == m and np.linalg.cond(y) < 1e3:
        case.close(f(z, x), np.linalg.inv(y), "exchanging inputs and outputs inverts the estimate", 1e-5)


@monitor(REGISTRY, quick=120, thorough=800)
def refit(case):
    rng = case.rng
    mod, prev, steps = TotalLeastSquares(), None, []
    buf, last = gen.Buffers(rng), None
    for k in range(rng.randint(2, 7)):
        if last is not None and rng.rand() < .5:
            x, z = last
            x, z = (gen.nearby(rng, x), z) if rng.rand() < .5 else (x, gen.nearby(rng, z))
        else:
            n, m, t, x, z, e = problem(rng)
            z = z[:, 0] if m == 1 and rng.rand() < .5 else z
        last = x.copy(), z.copy()
        x, z = buf("x", x), buf("z", z)
        got = fit(x, z, mod)
        steps.append("%s%s" % (x.shape, z.shape))
        case.same(got, fit(x.copy(), z.copy()), "refit equals a fresh fit (fit %d)" % k)
        if prev is not None:
            case.same(prev[0], prev[1], "an estimate handed out earlier stays as it was")
        prev = (got, got.copy())
    case.cover(",".join(steps))


@monitor(REGISTRY, quick=160, thorough=1500)
def few_samples(case):
    """Fewer samples than channels in all: the correction is still the smallest possible one."""
    rng = case.rng
    n, m = rng.randint(1, 8), rng.randint(1, 8)
    t = rng.randint(max(1, n - 1), n + m + 1)
    x, y = gen.cplx(rng, (t, n), "gauss"), gen.cplx(rng, (n, m), "gauss")
    e = gen.pick(rng, 0, 1e-3, .1, 1.)
    z = x @ y + e * gen.cplx(rng, (t, m), "gauss")
    x = x + e * gen.cplx(rng, (t, n), "gauss")
    d = np.hstack((x, z))
    s = np.linalg.svd(d, compute_uv=False)
    v = np.linalg.svd(d)[2][n:, n:]
    ok = np.linalg.cond(v) < 1e4 and (t <= n or s[n - 1] - s[min(n, len(s) - 1)] > 1e-4 * s[0])
    case.cover("T=%d n=%d m=%d e=%g" % (t, n, m, e), ok)
    if not ok:
        return case.event("ill posed")
    ym = np.reshape(fit(x, z), (n, m))
    nn = np.vstack((ym, -np.eye(m)))
    corr = d @ nn @ np.linalg.solve(nn.conj().T @ nn, nn.conj().T)
    case.close(np.linalg.norm(corr), np.sqrt(np.sum(s[n:] ** 2)), "distance to the nearest consistent data", 1e-6, 1e-8 * s[0])
    if e == 0 and t >= n and np.linalg.cond(x) < 1e4:
        case.close(ym, y, "exact parameters from noise-free data", 1e-7)


@monitor(REGISTRY, quick=160, thorough=1500)
def graded(case):
    """Weakly excited directions and parameters of very different sizes, as in voltages around the nominal value."""
    rng = case.rng
    n, m = rng.randint(1, 7), rng.randint(1, 7)
    t = n + m + rng.randint(0, 40)
    a, b = (rng.uniform(0, 6.5), rng.uniform(0, 7)) if rng.rand() < .6 else (rng.uniform(0, 1.5), rng.uniform(6, 10))
    s = 10. ** -rng.uniform(0, a, n)
    x = gen.unitary(rng, t)[:, :n] @ np.diag(s) @ gen.unitary(rng, n)
    k = min(n, m)
    y = gen.unitary(rng, n)[:, :k] @ np.diag(10. ** (rng.uniform(0, b, k) - rng.uniform(0, b))) @ gen.unitary(rng, m)[:k]
    f = gen.pick(rng, 1., 1., 10. ** rng.uniform(-12, 12))
    s = np.linalg.svd(np.hstack((x, x @ y)), compute_uv=False)
    c = np.linalg.cond(np.linalg.svd(np.hstack((x, x @ y)))[2][n:, n:])
    tol = 1e-12 * max(1, c) * s[0] / s[n - 1]
    case.cover("T=%d n=%d m=%d 1e%d 1e%d" % (t, n, m, np.log10(s[0] / s[n - 1]), np.log10(c)), tol < .1)
    if tol >= .1:
        return case.event("ill conditioned")
    case.close(np.reshape(fit(f * x, f * (x @ y)), (n, m)), y, "exact parameters from noise-free data", tol)


@monitor(REGISTRY, quick=40, thorough=100)
def real_size(case):
    """Sizes of real studies: hundreds of samples, dozens of channels."""
    rng = case.rng
    n, t = gen.pick(rng, (rng.randint(15, 45), rng.randint(150, 500)), (rng.randint(2, 8), rng.randint(800, 1800)))
    x = gen.cplx(rng, (t, n), "gauss")
    y = (gen.laplacian(rng, n) if rng.rand() < .5 else gen.cplx(rng, (n, n), "gauss")) / np.sqrt(n)
    e = gen.pick(rng, 0, .01, .1)
    z = x @ y + e * gen.cplx(rng, (t, n), "gauss")
    x = x + e * gen.cplx(rng, (t, n), "gauss")
    case.cover("T=%d n=%d e=%g" % (t, n, e))
    got = fit(x, z)
    d = np.hstack((x, z))
    w, v = np.linalg.eigh(d.conj().T @ d)
    case.close(got, -v[:n, :n] @ np.linalg.inv(v[n:, :n]), "total least squares estimate", 1e-5)
    nn = np.vstack((got, -np.eye(n)))
    corr = d @ nn @ np.linalg.solve(nn.conj().T @ nn, nn.conj().T)
    case.close(np.linalg.norm(corr) ** 2, np.sum(np.abs(w[:n])), "distance to the nearest consistent data", 1e-6, 1e-9 * w[-1])


@monitor(REGISTRY, quick=160, thorough=1200)
def storage(case):
    """The numeric type and memory layout of the data do not matter."""
    rng = case.rng
    n, m = rng.randint(1, 7), rng.randint(1, 5)
    t = n + m + rng.randint(1, 25)
    kx, kz = (gen.pick(rng, "c128", "f64", "int", "c64", "f32") for _ in range(2))
    x = gen.matrix(rng, (t, n), kx) if kx == "int" else gen.cplx(rng, (t, n), "gauss")
    z = gen.matrix(rng, (t, m), kz) if kz == "int" else gen.cplx(rng, (t, m), "gauss")
    cast = {"c128": np.complex128, "f64": float, "int": int, "c64": np.complex64, "f32": np.float32}
    x, z = x.real if kx[0] == "f" else x, z.real if kz[0] == "f" else z
    x, z = gen.layout(rng, np.asarray(x, cast[kx])), gen.layout(rng, np.asarray(z, cast[kz]))
    if rng.rand() < .3:
        x.flags.writeable = z.flags.writeable = False
    if rng.rand() < .2:
        x, z = np.matrix(x), np.matrix(z)
    case.cover("T=%d n=%d m=%d %s %s %s" % (t, n, m, x.dtype, z.dtype, type(x).__name__))
    d = np.hstack((np.array(x, complex), np.array(z, complex)))
    s = np.linalg.svd(d, compute_uv=False)
    if not well(s, n):
        return case.event("ill conditioned")
    fr = Frozen(x=x, z=z)
    got = fit(x, z)
    fr.verify(case, "fit")
    single = "c64" in (kx, kz) or "f32" in (kx, kz)
    case.close(np.asarray(got).reshape(n, m), fit(d[:, :n].copy(), d[:, n:].copy()).reshape(n, m), "estimate", 1e-3 if single else 1e-8)


def well(s, n):
    return s[n - 1] - s[n] > .05 * s[0] and s[-1] > 1e-3 * s[0]
