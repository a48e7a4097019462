"""C05: ordinary least squares."""
import numpy as np
from src.models.regression import ComplexRegression
from vf.core import monitor, Frozen
from vf import gen

REGISTRY = []


def fit(x, z, model=None):
    m = model or ComplexRegression()
    m.fit(x, z)
    return m.fitted_admittance_matrix


def problem(rng):
    n, m = rng.randint(1, 7), rng.randint(1, 5)
    kind = gen.pick(rng, "tall", "tall", "tall", "square", "wide", "deficient")
    t = {"tall": n + rng.randint(1, 25), "square": n, "wide": max(1, n - rng.randint(0, n)), "deficient": 30}[kind]
    x = gen.cplx(rng, (t, n), "gauss") if rng.rand() < .8 else gen.real(rng, (t, n), "gauss")
    if kind == "deficient":
        r = rng.randint(1, n + 1)
        x = x.copy()
        x[:, rng.permutation(n)[:n - r]] = 0
    y = gen.cplx(rng, (n, m), "gauss")
    z = x @ y + (0 if rng.rand() < .3 else rng.uniform(.01, 2)) * gen.cplx(rng, (t, m), "gauss")
    w = 3 if rng.rand() < .8 else 20
    return kind, x * 10. ** rng.uniform(-w, w), z * 10. ** rng.uniform(-w, w)


@monitor(REGISTRY, quick=400, thorough=4000)
def optimal(case):
    rng = case.rng
    kind, x, z = problem(rng)
    one = z.shape[1] == 1 and rng.rand() < .5
    if one:
        z = z[:, 0]
    case.cover("%s %s -> %s" % (kind, x.shape, z.shape))
    fr = Frozen(x=x, z=z)
    y = fit(gen.layout(rng, x) if rng.rand() < .5 else x, z)
    fr.verify(case, "fit")
    case.check(y.shape == (x.shape[1],) + z.shape[1:], "shape of the estimate", y.shape)
    s = np.linalg.svd(x, compute_uv=False)
    s = s[s > 1e-8 * s[0]]
    cond = s[0] / s[-1]
    if cond > 1e6:
        case.event("ill conditioned")
        return
    tol = 1e-11 * cond
    nx, nz, ny = np.linalg.norm(x), np.linalg.norm(z), np.linalg.norm(y)
    r = z - x @ y
    case.check(np.linalg.norm(x.conj().T @ r) <= tol * nx * (nz + nx * ny), "residual is orthogonal to the regressors",
               x.conj().T @ r)
    # smallest solution: no component in the null space of x
    vh = np.linalg.svd(x)[2]
    null = vh[len(s):].conj().T
    case.check(null.size == 0 or np.linalg.norm(null.conj().T @ y) <= 10 * tol * ny, "smallest of all solutions")
    base = np.linalg.norm(r)
    for _ in range(5):
        d = gen.cplx(rng, y.shape, "gauss") * ny * 10. ** rng.uniform(-4, 1)
        case.check(np.linalg.norm(z - x @ (y + d)) >= base * (1 - 1e-9), "no other candidate has a smaller residual")
    case.event("candidates", 5)


@monitor(REGISTRY, quick=200, thorough=2000)
def noise_free(case):
    rng = case.rng
    n, m = rng.randint(1, 9), rng.randint(1, 9)
    t = n + rng.randint(0, 30) if rng.rand() < .7 else n * rng.randint(20, 90)
    x, y = gen.cplx(rng, (t, n), "gauss"), gen.cplx(rng, (n, m), "gauss")
    if rng.rand() < .4 and n > 1:  # inputs that move almost together, as voltages of neighbouring nodes do
        u, _, v = np.linalg.svd(x, full_matrices=False)
        x = u @ np.diag(10. ** -np.linspace(0, rng.uniform(2, 6.9), n)) @ v
    if rng.rand() < .3 and n > 1:
        y = gen.laplacian(rng, n)
    cond = np.linalg.cond(x)
    case.cover("T=%d n=%d" % (t, n), cond < 1e7)
    if cond < 1e7:
        case.close(fit(x, x @ y), y, "exact parameters from noise-free data", 1e-11 * cond)
    else:
        case.check(True, "")


@monitor(REGISTRY, quick=240, thorough=2500)
def equivariance(case):
    rng = case.rng
    kind, x, z = problem(rng)
    s = np.linalg.svd(x, compute_uv=False)
    s = s[s > 1e-8 * s[0]]
    cond = s[0] / s[-1]
    case.cover("%s %s -> %s" % (kind, x.shape, z.shape), cond < 1e4)
    y = fit(x, z)
    if cond >= 1e4:
        return case.event("ill conditioned")
    tol = 1e-9 * cond
    t, n = x.shape
    a, b = complex(*rng.uniform(.3, 3, 2)), complex(*rng.uniform(-3, -.3, 2))
    at = 1e-9 * np.linalg.norm(z) / s[-1]
    case.close(fit(x, b * z), b * y, "scaling of the outputs", tol, at)
    case.close(fit(a * x, z), y / a, "scaling of the inputs", tol, at)
    p = rng.permutation(t)
    case.close(fit(x[p], z[p]), y, "order of the samples", tol, at)
    q = rng.permutation(n)
    case.close(fit(x[:, q], z), y[q], "order of the inputs", tol, at)
    u = gen.unitary(rng, n)
    case.close(fit(x @ u, z), u.conj().T @ y, "change of basis of the inputs", tol, at * 10)
    w = gen.cplx(rng, (z.shape[1], rng.randint(1, 4)), "gauss")
    case.close(fit(x, z @ w), y @ w, "change of basis of the outputs", tol, at * 10)
    case.close(fit(np.vstack((x, x)), np.vstack((z, z))), y, "repeated samples", tol, at * 10)
    case.close(fit(gen.unitary(rng, t) @ x, np.zeros_like(z)), 0 * y, "zero outputs", tol, 1e-14)
    f, g = 2. ** rng.randint(-60, 60), 2. ** rng.randint(-60, 60)
    case.close(fit(f * x, g * z), (g / f) * y, "other units", tol, (g / f) * at)


@monitor(REGISTRY, quick=120, thorough=800)
def refit(case):
    rng = case.rng
    m = ComplexRegression()
    case.check(m.fitted_admittance_matrix is None, "no estimate before the first fit")
    buf, last = gen.Buffers(rng), None
    prev, steps = None, []
    for k in range(rng.randint(2, 7)):
        if last is not None and rng.rand() < .5:
            kind, x, z = last
            x, z = (gen.nearby(rng, x), z) if rng.rand() < .5 else (x, gen.nearby(rng, z))
            kind = "again "
        else:
            kind, x, z = problem(rng)
        last = kind, x.copy(), z.copy()
        x, z = buf("x", x), buf("z", z)
        got = fit(x, z, m)
        steps.append("%s%s" % (kind, x.shape))
        want = fit(x.copy(), z.copy())
        case.same(got, want, "refit equals a fresh fit (fit %d)" % k)
        s = np.linalg.svd(x, compute_uv=False)
        s = s[s > 1e-8 * s[0]]
        if s[0] < 1e4 * s[-1]:
            r = x.conj().T @ (z - x @ got)
            case.check(np.linalg.norm(r) <= 1e-7 * s[0] * (np.linalg.norm(z) + s[0] * np.linalg.norm(got)),
                       "estimate of fit %d belongs to its data" % k, r)
        if prev is not None:
            case.same(prev[0], prev[1], "an estimate handed out earlier stays as it was")
        prev = (got, got.copy())
    case.cover(",".join(steps))


@monitor(REGISTRY, quick=240, thorough=2000)
def weak_directions(case):
    """Directions that the data excite very little, as voltages around the nominal value do, still count."""
    rng = case.rng
    n, m = rng.randint(2, 8), rng.randint(1, 5)
    t = n + rng.randint(2, 40)
    top = 8.5 if rng.rand() < .7 else 11
    k = rng.rand()
    if k < .5:
        s = 10. ** -np.sort(np.hstack((0, rng.uniform(0, top, n - 1))))
        x = gen.unitary(rng, t)[:, :n] @ np.diag(s) @ gen.unitary(rng, n)
        kind = "graded"
    elif k < .8:
        # some channels are excited by a few samples only
        x = gen.cplx(rng, (t, n), "gauss")
        r = rng.randint(1, n)
        x[r:, :r] = 0
        x[:r, :r] = gen.unitary(rng, r) * 10. ** rng.uniform(-gen.pick(rng, top, 11), -2)
        x[:r, r:] *= rng.randint(2)
        x = x[rng.permutation(t)][:, rng.permutation(n)]
        kind = "rare"
    else:
        x = 1 + 10. ** rng.uniform(-top, -2) * gen.cplx(rng, (t, n), "gauss")
        kind = "voltages"
    u, s, vh = np.linalg.svd(x, full_matrices=False)
    cond = s[0] / s[-1]
    case.cover("%s T=%d n=%d m=%d 1e%d" % (kind, t, n, m, np.log10(cond)), cond < 2e11)
    if cond >= 2e11:
        return case.event("ill conditioned")
    c = gen.cplx(rng, (n, m), "gauss")
    y = vh.conj().T @ (c / s[:, None])
    off = gen.cplx(rng, (t, m), "gauss")
    z = u @ c + gen.pick(rng, 0, 1) * (off - u @ (u.conj().T @ off))
    got = fit(x, z)
    if cond < 2e9:
        case.close(got, y, "least squares estimate", 1e-11 * cond)
    tol = 1e-11 * cond if cond < 2e9 else 1e-13 * cond
    case.check(np.linalg.norm(u.conj().T @ (z - x @ got)) <= tol * np.linalg.norm(z),
               "residual is orthogonal to the regressors", u.conj().T @ (z - x @ got))


@monitor(REGISTRY, quick=48, thorough=100)
def real_size(case):
    """Sizes of real studies: thousands of samples, dozens of channels."""
    rng = case.rng
    n, t = gen.pick(rng, (rng.randint(20, 70), rng.randint(200, 3000)), (rng.randint(2, 12), rng.randint(2000, 20000)))
    x = gen.cplx(rng, (t, n), "gauss") * 10. ** rng.uniform(-1, 1, n)
    y = gen.laplacian(rng, n) if rng.rand() < .5 else gen.cplx(rng, (n, n), "gauss")
    z = x @ y + gen.pick(rng, 0, .1) * gen.cplx(rng, (t, n), "gauss")
    case.cover("T=%d n=%d" % (t, n))
    got = fit(x, z)
    q, r = np.linalg.qr(x)
    case.close(got, np.linalg.solve(r, q.conj().T @ z), "least squares estimate", 1e-8)
    res = z - x @ got
    case.check(np.linalg.norm(q.conj().T @ res) <= 1e-8 * np.linalg.norm(z), "residual is orthogonal to the regressors")


@monitor(REGISTRY, quick=160, thorough=1200)
def storage(case):
    """The numeric type and memory layout of the data do not matter."""
    rng = case.rng
    n, m = rng.randint(1, 7), rng.randint(1, 5)
    t = n + m + rng.randint(1, 25)
    kx, kz = (gen.pick(rng, "c128", "f64", "int", "c64", "f32") for _ in range(2))
    x = gen.matrix(rng, (t, n), kx) if kx == "int" else gen.cplx(rng, (t, n), "gauss")
    z = gen.matrix(rng, (t, m), kz) if kz == "int" else gen.cplx(rng, (t, m), "gauss")
    cast = {"c128": np.complex128, "f64": float, "int": int, "c64": np.complex64, "f32": np.float32}
    x, z = x.real if kx[0] == "f" else x, z.real if kz[0] == "f" else z
    x, z = gen.layout(rng, np.asarray(x, cast[kx])), gen.layout(rng, np.asarray(z, cast[kz]))
    if rng.rand() < .3:
        x.flags.writeable = z.flags.writeable = False
    if rng.rand() < .2:
        x, z = np.matrix(x), np.matrix(z)
    case.cover("T=%d n=%d m=%d %s %s %s" % (t, n, m, x.dtype, z.dtype, type(x).__name__))
    d = np.hstack((np.array(x, complex), np.array(z, complex)))
    s = np.linalg.svd(d[:, :n], compute_uv=False)
    if not well(s, n):
        return case.event("ill conditioned")
    fr = Frozen(x=x, z=z)
    got = fit(x, z)
    fr.verify(case, "fit")
    single = "c64" in (kx, kz) or "f32" in (kx, kz)
    case.close(np.asarray(got).reshape(n, m), fit(d[:, :n].copy(), d[:, n:].copy()).reshape(n, m), "estimate", 1e-3 if single else 1e-8)


def well(s, n):
    return s[-1] > 1e-2 * s[0]
