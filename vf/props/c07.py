"""C07: priors. The oracle keeps the declared beliefs itself and evaluates them one by one."""
import copy
import numpy as np
from scipy import sparse as sp
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
from vf.core import monitor, Frozen, dense
from vf import gen

REGISTRY = []


class Ledger:
    """Declared beliefs: (row, centre, order) with residual row @ x - centre."""
    def __init__(self, n):
        self.n, self.b = n, []

    def row(self, idx, coef):
        r = np.zeros(self.n)
        r[list(idx)] = coef
        return r

    def evaluate(self, x, alpha):
        a, b, p = np.zeros((self.n, self.n)), np.zeros(self.n), 0.
        for r, mu, g in self.b:
            w = abs(r @ x - mu) ** (2 - g) + alpha
            a += np.outer(r, r) / w
            b += r * mu / w
            p += w
        return a, b, p


    def rounding(self, x, alpha):
        """Relative effect of rounding errors of the residuals on the smoothed weights."""
        out = 0.
        for r, mu, g in self.b:
            e, d = 1e-14 * (np.abs(r) @ np.abs(x) + abs(mu)), abs(r @ x - mu)
            w = d ** (2 - g) + alpha
            out = max(out, {0: (2 * d * e + e * e) / w, 1: e / w}.get(g, 0.))
        return 4 * out


def per(rng, k, fn, scalar_ok=True):
    """A scalar, an array or (for weights) None, and its per-belief values."""
    c = rng.randint(3)
    if c == 0 and scalar_ok:
        v = fn()
        return v, [v] * k
    v = np.array([fn() for _ in range(k)])
    return v, list(v)


def declare(rng, n, led):
    """One random declaration: (method, kwargs) and its beliefs added to the ledger."""
    sw, sv = (1., 1.) if rng.rand() < .6 else 10. ** rng.uniform(-7, 5, 2)  # units of the weights and of the parameters
    k = rng.randint(1, max(2, min(n, 5) + 1))
    kind = gen.pick(rng, "exact", "sparsity", "adaptive", "contrast", "ratio")
    if kind == "ratio" and n < 2:
        kind = "exact"
    orders, ol = per(rng, k, lambda: gen.pick(rng, SmoothPrior.DELTA, SmoothPrior.LAPLACE, SmoothPrior.GAUSS))
    if rng.rand() < .2:
        kw, ol = {}, [2] * k
    else:
        kw = {"orders": orders}
    weights, wl = (None, [1.] * k) if rng.rand() < .25 else per(rng, k, lambda: rng.uniform(.1, 4) * sw)
    if weights is not None or rng.rand() < .5:
        if kind != "adaptive":
            kw["weights"] = weights
    nonzero = lambda: rng.uniform(.3, 4) * gen.pick(rng, 1, -1) * sv
    idx = rng.randint(0, n, k) if rng.rand() < .5 else rng.permutation(n)[:k]
    k = len(idx)
    if k < len(wl):
        wl, ol = wl[:k], ol[:k]
        for q in ("orders", "weights"):
            if isinstance(kw.get(q), np.ndarray):
                kw[q] = kw[q][:k]
    val = np.array([nonzero() for _ in range(k)])
    if rng.rand() < .2:
        val = np.array(gen.pick(rng, np.ceil, np.floor)(val), dtype=int)
        val[val == 0] = 1
    elif rng.rand() < .1:  # several units at once
        val = val * 10. ** rng.uniform(-4, 4, k)
    ix = list(idx) if rng.rand() < .5 else idx
    if kind == "exact":
        if rng.rand() < .3:
            val[rng.randint(k)] = 0
        kw.update(indices=ix, values=val)
        for i, v, w, g in zip(idx, val, wl, ol):
            led.b.append((led.row([i], w), w * v, g))
        return "add_exact_prior", kw
    if kind == "sparsity":
        kw.update(indices=ix)
        for i, w, g in zip(idx, wl, ol):
            led.b.append((led.row([i], w), 0., g))
        return "add_sparsity_prior", kw
    if kind == "adaptive":
        kw.update(indices=ix, values=val)
        for i, v, g in zip(idx, val, ol):
            led.b.append((led.row([i], 1. / v), 0., g))
        return "add_adaptive_sparsity_prior", kw
    if kind == "contrast":
        m = rng.randint(1, min(n, 5) + 1)
        rows = np.array([rng.permutation(n)[:m] for _ in range(k)])
        kw.update(indices=rows, values=val)
        for r, v, w, g in zip(rows, val, wl, ol):
            led.b.append((led.row(r, w / v), w, g))
        return "add_contrast_prior", kw
    rows = np.array([rng.permutation(n)[:2] for _ in range(k)])
    kw.update(indices=rows, values=val)
    for r, v, w, g in zip(rows, val, wl, ol):
        row = np.zeros(n)
        row[r[0]], row[r[1]] = w, -v * w
        led.b.append((row, 0., g))
    return "add_ratios_prior", kw


def points(rng, n, led):
    yield rng.randn(n) * 10. ** rng.uniform(-2, 2)
    yield np.zeros(n)
    if led.b:
        # a point satisfying one belief exactly
        r, mu, g = led.b[rng.randint(len(led.b))]
        yield r * mu / (r @ r)


def judge(case, prior, led, alpha, what):
    rng, n = case.rng, led.n
    for x in points(rng, n, led):
        want = led.evaluate(x, alpha)
        xx = gen.pick(rng, x, x, x.reshape(-1, 1)) if n > 1 else x
        fr = Frozen(x=xx, prior=prior)
        a, b, p = prior.log_distribution(xx)
        fr.verify(case, "evaluation")
        case.check(a.shape == (n, n), what + ": shape of the quadratic form", a.shape)
        scale = max((abs(mu) + np.abs(r).sum() * np.abs(x).max()) for r, mu, g in led.b) if led.b else 1
        tol = 1e-7 + led.rounding(x, alpha)
        if tol > 1e-2:  # a residual of rounding errors decides
            case.event("points without a well defined residual")
            continue
        case.close(a, want[0], what + ": quadratic form", tol)
        terms = max([np.max(np.abs(r * mu)) / (abs(r @ x - mu) ** (2 - g) + alpha) for r, mu, g in led.b] or [0.])
        case.close(np.ravel(dense(b)), want[1], what + ": linear term", tol, 1e-12 * terms)
        case.close(float(p), want[2], what + ": penalty", 1e-9, 1e-12 * scale ** 2)
        case.event("evaluations")


def away(led, x):
    return all(abs(r @ x - mu) > 1e-6 for r, mu, g in led.b)


@monitor(REGISTRY, quick=375, thorough=6000)
def declarations(case):
    rng = case.rng
    n = rng.randint(1, 10)
    alpha = gen.pick(rng, 1e-5, 1e-3, 1e-8, .5)
    led = Ledger(n)
    d, s = SmoothPrior(alpha, n), SparseSmoothPrior(smoothness_param=alpha, n=n)
    steps = rng.randint(0, 7)
    names = []
    for _ in range(steps):
        name, kw = declare(rng, n, led)
        names.append(name[4:-6])
        fr = Frozen(**{k: v for k, v in kw.items() if v is not None})
        getattr(d, name)(**kw)
        getattr(s, name)(**kw)
        fr.verify(case, name)
        if rng.rand() < .3:  # the arrays of a declaration are the caller's again
            for v in kw.values():
                if isinstance(v, np.ndarray) and v.dtype.kind in "fi":
                    v[...] = rng.permutation(v.ravel()).reshape(v.shape) if rng.rand() < .5 else 1
        if rng.rand() < .3:
            judge(case, gen.pick(rng, d, s), led, alpha, "after %d declarations" % len(names))
    case.cover("n=%d alpha=%g %s beliefs=%d" % (n, alpha, ",".join(names), len(led.b)), bool(led.b))
    judge(case, d, led, alpha, "dense prior")
    judge(case, s, led, alpha, "sparse prior")
    case.check(sp.issparse(s.log_distribution(np.zeros(n))[0]), "sparse prior has a sparse quadratic form")
    case.event("declarations", steps)


@monitor(REGISTRY, quick=150, thorough=2500)
def order_of_declarations(case):
    rng = case.rng
    n = rng.randint(1, 8)
    led = Ledger(n)
    calls = [declare(rng, n, led) for _ in range(rng.randint(2, 6))]
    perm = rng.permutation(len(calls))
    case.cover("n=%d %s %s" % (n, [c[0][4:-6] for c in calls], list(perm)))
    for cls in (SmoothPrior, SparseSmoothPrior):
        a, b = cls(1e-4, n), cls(1e-4, n)
        for name, kw in calls:
            getattr(a, name)(**kw)
        for i in perm:
            name, kw = calls[i]
            getattr(b, name)(**kw)
        x = rng.randn(n)
        ra, rb = a.log_distribution(x), b.log_distribution(x)
        case.close(ra[0], dense(rb[0]), "quadratic form of reordered declarations", 1e-8)
        case.close(ra[1], rb[1], "linear term of reordered declarations", 1e-8)
        case.close(float(ra[2]), float(rb[2]), "penalty of reordered declarations", 1e-9)


@monitor(REGISTRY, quick=200, thorough=3000)
def copies(case):
    rng = case.rng
    n = rng.randint(1, 8)
    led = Ledger(n)
    src_cls, dst_cls = (SmoothPrior, SparseSmoothPrior)[rng.randint(2)], (SmoothPrior, SparseSmoothPrior)[rng.randint(2)]
    src = src_cls(1e-4, n)
    for _ in range(rng.randint(0, 4)):
        name, kw = declare(rng, n, led)
        getattr(src, name)(**kw)
    led2 = copy.deepcopy(led)
    new = dst_cls(smoothness_param=1e-3, other=src)
    judge(case, new, led2, 1e-3, "copied prior")
    names = []
    for _ in range(rng.randint(1, 4)):
        if rng.rand() < .7:
            name, kw = declare(rng, n, led2)
            getattr(new, name)(**kw)
            names.append("copy+" + name)
        else:
            name, kw = declare(rng, n, led)
            getattr(src, name)(**kw)
            names.append("source+" + name)
    case.cover("n=%d %s->%s %s" % (n, src_cls.__name__, dst_cls.__name__, ",".join(names)))
    judge(case, new, led2, 1e-3, "extended copy")
    judge(case, src, led, 1e-4, "source of the copy")


@monitor(REGISTRY, quick=150, thorough=2500)
def energy(case):
    """The quadratic form, linear term and penalty are the smoothed beliefs, also read from outside: residual energies."""
    rng = case.rng
    n = rng.randint(1, 7)
    alpha = 1e-4
    cls = (SmoothPrior, SparseSmoothPrior)[case.index % 2]
    led, p = Ledger(n), cls(alpha, n)
    for _ in range(rng.randint(1, 5)):
        name, kw = declare(rng, n, led)
        getattr(p, name)(**kw)
    x, y = rng.randn(n), rng.randn(n)
    case.cover("n=%d beliefs=%d %s" % (n, len(led.b), cls.__name__))
    a, b, pen = p.log_distribution(x)
    a = dense(a)
    w = [abs(r @ x - mu) ** (2 - g) + alpha for r, mu, g in led.b]
    const = sum(mu * mu / k for (r, mu, g), k in zip(led.b, w))
    e = lambda q: sum((r @ q - mu) ** 2 / k for (r, mu, g), k in zip(led.b, w))
    for q in (x, y, 0 * x):
        case.close(float(q @ a @ q - 2 * np.ravel(b) @ q + const), e(q), "smoothed belief energy", 1e-7, 1e-9 * (const + e(y)))
    ev = np.linalg.eigvalsh((a + a.T) / 2)
    case.close(a, a.T, "symmetric quadratic form", 1e-9)
    case.check(ev[0] >= -1e-9 * max(1, ev[-1]), "positive semi-definite quadratic form", ev)


@monitor(REGISTRY, quick=75, thorough=800)
def exact_adaptive(case):
    """Value beliefs with adaptive uncertainty are centred on the declared values."""
    rng = case.rng
    n = rng.randint(1, 7)
    cls = (SmoothPrior, SparseSmoothPrior)[case.index % 2]
    p = cls(1e-5, n)
    k = rng.randint(1, n + 1)
    idx, val = rng.permutation(n)[:k], rng.uniform(.3, 3, k) * np.where(rng.rand(k) < .5, -1, 1)
    w = gen.pick(rng, None, 2., rng.uniform(.5, 2, k))
    p.add_exact_adaptive_prior(idx, val, w, gen.pick(rng, 1, 2, 0))
    case.cover("n=%d k=%d %s" % (n, k, cls.__name__))
    x = rng.randn(n)
    x[idx] = val
    a, b, pen = p.log_distribution(x)
    case.close(dense(a) @ x, np.ravel(b), "the declared values minimise the belief", 1e-9)
    case.check(np.linalg.matrix_rank(dense(a), tol=1e-6) == k, "one belief per declared value")
    free = np.setdiff1d(np.arange(n), idx)
    case.check(not np.any(dense(a)[free]), "other parameters stay free")


@monitor(REGISTRY, quick=30, thorough=200)
def many_beliefs(case):
    """Hundreds of parameters and beliefs, as for real grids."""
    rng = case.rng
    n = rng.randint(40, 400)
    alpha = gen.pick(rng, 1e-4, 1e-2)
    led = Ledger(n)
    pr = gen.pick(rng, SmoothPrior, SparseSmoothPrior)(alpha, n)
    for _ in range(rng.randint(2, 6)):
        k = rng.randint(20, n + 1)
        idx = rng.permutation(n)[:k]
        if rng.rand() < .5:
            idx = np.sort(idx)
        o, w = gen.pick(rng, 0, 1, 2), rng.uniform(.3, 2, k)
        c = gen.pick(rng, "x", "s", "a", "c", "r")
        v = rng.uniform(.5, 2, k)
        if c == "x":
            pr.add_exact_prior(idx, v, w, o)
            led.b += [(led.row([i], b), b * a, o) for i, a, b in zip(idx, v, w)]
        elif c == "s":
            pr.add_sparsity_prior(idx, w, o)
            led.b += [(led.row([i], b), 0., o) for i, b in zip(idx, w)]
        elif c == "a":
            pr.add_adaptive_sparsity_prior(idx, v, o)
            led.b += [(led.row([i], 1 / a), 0., o) for i, a in zip(idx, v)]
        else:
            m = 2 if c == "r" else rng.randint(2, 12)
            rows = np.array([rng.permutation(n)[:m] for _ in range(k)])
            if c == "c":
                pr.add_contrast_prior(rows, v, w, o)
                led.b += [(led.row(r, b / a), b, o) for r, a, b in zip(rows, v, w)]
            else:
                pr.add_ratios_prior(rows, v, w, o)
                for r, a, b in zip(rows, v, w):
                    row = np.zeros(n)
                    row[r[0]], row[r[1]] = b, -a * b
                    led.b.append((row, 0., o))
    case.cover("n=%d beliefs=%d %s" % (n, len(led.b), type(pr).__name__))
    m = np.array([b[0] for b in led.b])
    mu, g = np.array([b[1] for b in led.b]), np.array([b[2] for b in led.b])
    for s in (.1, 3.):
        x = rng.randn(n) * s
        w = np.abs(m @ x - mu) ** (2 - g) + alpha
        a, b, p = pr.log_distribution(x)
        case.close(a, m.T @ (m / w[:, None]), "quadratic form", 1e-8)
        case.close(np.ravel(dense(b)), m.T @ (mu / w), "linear term", 1e-8)
        case.close(float(p), np.sum(w), "penalty", 1e-9)
        case.event("evaluations")
