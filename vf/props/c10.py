"""C10: information matrix, its bound, and the uncertainty study."""
import numpy as np
from scipy import sparse as sp
from src.models.error_in_variable import TotalLeastSquares
from src.models import noise_transformation as nt
from src.identification import run
from vf.core import monitor, Frozen, dense
from vf import gen

REGISTRY = []


def cov(rng, t, n, kind=None):
    """Covariance with diagonal real/imaginary blocks, of column-stacked T-by-n data."""
    k = t * n
    kind = kind or gen.pick(rng, "scalar", "diag", "blocks", "polar")
    if kind == "scalar":
        a = b = np.full(k, 10. ** rng.uniform(-3, 1))
        c = np.zeros(k)
    elif kind == "diag":
        a, b, c = rng.uniform(.1, 3, k), rng.uniform(.1, 3, k), np.zeros(k)
    elif kind == "blocks":
        a, b = rng.uniform(.1, 3, k), rng.uniform(.1, 3, k)
        c = rng.uniform(-.9, .9, k) * np.sqrt(a * b)
    else:
        z = rng.uniform(.3, 2, (t, n)) * np.exp(1j * rng.uniform(-3, 3, (t, n)))
        return sp.csr_matrix(nt.average_true_noise_covariance(z, rng.uniform(.05, .4, n), float(rng.uniform(.05, .4))))
    return sp.bmat([[sp.diags(a), sp.diags(c)], [sp.diags(c), sp.diags(b)]], format="csr")


def rows(c, t, n, sel):
    """The covariance of the samples sel only."""
    ix = np.concatenate([np.arange(n)[:, None] * t + np.asarray(sel)[None, :] + q * t * n for q in (0, 1)]).ravel()
    return c.tocsr()[ix][:, ix]


def setting(rng):
    n = rng.randint(1, 4)
    t = 2 * n + rng.randint(2, 8)
    x = gen.cplx(rng, (t, n), "gauss")
    y = gen.laplacian(rng, n) if n > 1 and rng.rand() < .6 else gen.cplx(rng, (n, n), "gauss")
    # per unit voltages, kilovolts, milliamperes, ...
    a, b = (1., 1.) if rng.rand() < .5 else 10. ** rng.uniform(-5, 4, 2)
    x, y = a * x, b * y
    return n, t, x, x @ y, y, a ** 2 * cov(rng, t, n), (a * b) ** 2 * cov(rng, t, n)


def info(x, z, cx, cz, y):
    return TotalLeastSquares().fisher_info(x, z, cx, cz, y)


def scale(f):
    return np.max(np.abs(f))


@monitor(REGISTRY, quick=140, thorough=2500)
def laws(case):
    rng = case.rng
    n, t, x, z, y, cx, cz = setting(rng)
    case.cover("n=%d T=%d" % (n, t))
    fr = Frozen(x=x, z=z, y=y, cx=cx, cz=cz)
    f, c = info(x, z, cx, cz, y)
    fr.verify(case, "fisher_info")
    k = 2 * n * n
    case.check(f.shape == (k, k) and c.shape == (k, k), "one row per real and imaginary parameter", f.shape, c.shape)
    case.check(not np.iscomplexobj(f) or not np.any(np.imag(f)), "real matrix")
    case.close(f, f.T, "symmetric matrix", 1e-10)
    w = np.linalg.eigvalsh((f + f.T) / 2)
    case.check(w[0] >= -1e-9 * w[-1], "positive semi-definite", w)
    if w[0] > 1e-10 * w[-1]:
        case.close(f @ c, np.eye(k), "error covariance is the inverse", 1e-6)
        case.close(c, np.linalg.inv(f), "error covariance is the inverse", 1e-4)
    a = 10. ** rng.uniform(-3, 3)
    case.close(info(x, z, a * cx, a * cz, y)[0] * a, f, "inversely proportional to the noise covariances", 1e-8)
    # independent samples
    cut = rng.randint(1, t)
    p = rng.permutation(t)
    s1, s2 = np.sort(p[:cut]), np.sort(p[cut:])
    parts = []
    for s in (s1, s2):
        m = TotalLeastSquares()
        try:
            parts.append(m.fisher_info(x[s], z[s], rows(cx, t, n, s), rows(cz, t, n, s), y)[0])
        except np.linalg.LinAlgError:
            parts = None        # too few samples for the bound to exist
            break
    if parts:
        case.close(parts[0] + parts[1], f, "adds up over independent samples", 1e-8)
        case.event("splits")
    q = rng.permutation(t)
    case.close(info(x[q], z[q], rows(cx, t, n, q), rows(cz, t, n, q), y)[0], f, "order of the samples", 1e-8)
    # more noise never brings more information
    for which in ("inputs", "outputs", "both"):
        d = 10. ** rng.uniform(-2, 1)
        mx = cx + d * cx.diagonal().mean() * cov(rng, t, n) if which != "outputs" else cx
        mz = cz + d * cz.diagonal().mean() * cov(rng, t, n) if which != "inputs" else cz
        g = info(x, z, mx, mz, y)[0]
        e = np.linalg.eigvalsh((f - g + (f - g).T) / 2)
        case.check(e[0] >= -1e-9 * scale(f), "more noise on %s never brings more information" % which, e[0], scale(f))
        if which != "inputs":
            case.check(np.trace(g) < np.trace(f), "more output noise lowers the information", np.trace(g), np.trace(f))


@monitor(REGISTRY, quick=120, thorough=2500)
def classical(case):
    """Exact inputs: the information of linear least squares. Circular input noise: never more than the exact information."""
    rng = case.rng
    n, t, x, z, y, cx, cz = setting(rng)
    if rng.rand() < .2:
        x = np.real(x) + (1j if rng.rand() < .5 else 0) * 1e-6 * np.imag(x)  # voltages nearly in phase
        z = x @ y
    case.cover("exact inputs n=%d T=%d" % (n, t))
    a = np.kron(np.eye(n), x)
    a = np.block([[a.real, -a.imag], [a.imag, a.real]])
    w = np.linalg.inv(dense(cz))
    f, c = info(x, z, 0 * cx, cz, y)
    case.close(f, a.T @ w @ a, "information with exact inputs", 1e-8)
    v = rng.uniform(.1, 3, t) if n == 1 else np.full(t, rng.uniform(.05, 3))
    v = np.tile(v, n)
    s = rng.uniform(.1, 3, t * n)
    fx, fz = sp.diags(np.tile(v, 2), format="csr"), sp.diags(np.tile(s, 2), format="csr")
    g = info(x, z, fx, fz, y)[0]
    k = np.kron(y.T, np.eye(t))
    k = np.block([[k.real, -k.imag], [k.imag, k.real]])
    best = a.T @ np.linalg.inv(dense(fz) + k @ dense(fx) @ k.T) @ a
    if n == 1:
        case.close(g, best, "information of one noisy input", 1e-8)
    else:
        e = np.linalg.eigvalsh((best - g + (best - g).T) / 2)
        case.check(e[0] >= -1e-9 * scale(best), "the information is never overstated", e[0], scale(best))
        least = a.T @ np.linalg.inv(dense(fz) + np.sum(np.abs(y) ** 2) * v[0] * 2 * np.eye(2 * t * n)) @ a
        e = np.linalg.eigvalsh((g - least + (g - least).T) / 2)
        case.check(e[0] >= -1e-9 * scale(best), "the information is not discarded", e[0], scale(best))
    case.event("calibrated information matrices")


@monitor(REGISTRY, quick=50, thorough=500)
def more_data(case):
    """Repeating the data multiplies the information, larger regressors carry more of it when inputs are exact."""
    rng = case.rng
    n, t, x, z, y, cx, cz = setting(rng)
    case.cover("n=%d T=%d" % (n, t))
    f, c = info(x, z, cx, cz, y)
    r = rng.randint(2, 4)
    ix = np.tile(np.arange(t), r)
    g, d = info(x[ix], z[ix], rep(cx, t, n, r), rep(cz, t, n, r), y)
    case.close(g, r * f, "repeated data", 1e-8)
    case.close(d, c / r, "bound of repeated data", 1e-4)
    a = rng.uniform(1.5, 4)
    zero = 0 * cx
    f0 = info(x, z, zero, cz, y)[0]
    case.close(info(a * x, a * z, zero, cz, y)[0], a * a * f0, "larger signals", 1e-8)


def rep(c, t, n, r):
    """Covariance of r independent repetitions."""
    k = t * n
    m = c.tocsr()
    a, b, o = m[:k, :k].diagonal(), m[k:, k:].diagonal(), m[:k, k:].diagonal()
    st = lambda v: np.tile(v.reshape((t, n), order="F"), (r, 1)).flatten("F")
    return sp.bmat([[sp.diags(st(a)), sp.diags(st(o))], [sp.diags(st(o)), sp.diags(st(b))]], format="csr")


@monitor(REGISTRY, quick=40, thorough=300)
def study(case):
    rng = case.rng
    n = rng.randint(2, 4)
    t = 2 * n + rng.randint(4, 12)
    y = gen.laplacian(rng, n)
    v = 1 + .05 * gen.cplx(rng, (t, n), "gauss")
    i = v @ y + .001 * gen.cplx(rng, (t, n), "gauss")
    sv, sc = 10. ** rng.uniform(-4, -2, 2), 10. ** rng.uniform(-4, -2, 2)
    rat = rng.uniform(.5, 3, n)
    lap = rng.rand() < .3
    ns = int(rng.randint(50, 400))
    name = "vf%d" % case.index
    case.cover("n=%d T=%d laplacian=%s samples=%d" % (n, t, lap, ns))
    args = (name, v, i, sv[0] + 1j * sv[1], sc[0] + 1j * sc[1], rat, y, ns)
    fr = Frozen(v=v, i=i, rat=rat, y=y)
    a = run.eiv_fim(*args, laplacian=lap, verbose=case.verbose)
    fr.verify(case, "eiv_fim")
    case.check(len(a) == 3, "information, bound and expected error")
    np.random.rand(rng.randint(1, 50))
    a2 = [np.array(k) for k in a]
    r = run.eiv_fim(name, None, None, None, None, None, None, verbose=False)
    for p, q, what in zip(a2, r, ("information", "bound", "expected error")):
        case.same(q, p, "reloaded " + what)
    b = run.eiv_fim("other", *args[1:], laplacian=lap, verbose=case.verbose)
    for p, q, what in zip(a2, b, ("information", "bound", "expected error")):
        case.same(q, p, "repeated " + what)
    k = 2 * n * n
    case.check(a2[0].shape == (k, k) and a2[1].shape == (k, k) and float(a2[2]) > 0, "shapes", a2[0].shape, a2[2])
    r = run.eiv_fim(name, None, None, None, None, None, None, verbose=False)
    case.same(r[0], a2[0], "another study leaves the saved one alone")
    case.close(a2[0], a2[0].T, "symmetric information", 1e-8)
    w = np.linalg.eigvalsh((a2[0] + a2[0].T) / 2)
    case.check(w[0] >= -1e-9 * w[-1], "positive semi-definite information", w)
    d = np.sqrt(np.diag(a2[0]))
    case.close((a2[0] / np.outer(d, d)) @ (a2[1] * np.outer(d, d)), np.eye(k), "bound is the inverse of the information", 1e-3)
    # the information of the measurements around their means, with the covariances of their own instruments
    sx = nt.average_true_noise_covariance(v, sv[0], sv[1])
    sz = nt.average_true_noise_covariance(i, sc[0] * rat, sc[1])
    want = info(v - (np.mean(v) if lap else np.mean(v, axis=0)), i if lap else i - np.mean(i, axis=0), sx, sz, y)[0]
    case.close(a2[0], want, "information of the centred measurements and their instruments", 1e-6)
    # noisier instruments: less information
    g = run.eiv_fim("noisier", v, i, 2 * args[3], 2 * args[4], rat, y, ns, laplacian=lap, verbose=case.verbose)
    case.check(np.trace(g[0]) < np.trace(a2[0]), "noisier instruments bring less information")
