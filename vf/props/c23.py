"""C23: priors built for identification. The oracle lists the documented beliefs itself and evaluates them."""
import copy
import numpy as np
from src.identification import run, run3ph
from src.models.matrix_operations import duplication_matrix, elimination_sym_matrix, elimination_lap_matrix, transformation_matrix
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior
from vf.core import monitor, Frozen, dense
from vf import gen
from vf.props.c07 import Ledger

REGISTRY = []


class Params:
    """Coordinates of an n-by-n matrix: one real, then one imaginary one per free parameter, column by column."""
    def __init__(self, n, lap):
        self.n, self.lap = n, lap
        self.pairs = [(i, j) for j in range(n) for i in range(j + (1 if lap else 0), n)]
        self.m = len(self.pairs)
        self.size = 2 * self.m

    def vec(self, y):
        s = (y + y.T) / 2
        c = np.array([-s[i, j] if self.lap else s[i, j] for i, j in self.pairs])
        return np.concatenate((c.real, c.imag))

    def off(self):
        k = [p for p, (i, j) in enumerate(self.pairs) if i != j]
        return np.array(k + [p + self.m for p in k])

    def row(self, node, imag):
        return np.array([p + imag * self.m for p, (i, j) in enumerate(self.pairs) if (i == node) != (j == node)])


def estimate(rng, n, lap):
    """An unregularised estimate of an admittance matrix: not symmetric, no exactly zero entries."""
    y = gen.cplx(rng, (n, n), "gauss") * 10. ** rng.uniform(-1, 3)
    mask = rng.rand(n, n) < .5
    y = np.where(mask, y, y * 10. ** rng.uniform(-4, -1))
    y = y + .01 * y.T
    if rng.rand() < .7 or lap:
        y -= np.diag(np.diag(y))
        y -= np.diag(y.sum(axis=1)) * rng.uniform(.9, 1.1)
    if lap and rng.rand() < .7:
        y = (y + y.T) / 2
        y -= np.diag(y.sum(axis=1))
    return y


def alpha_of(prior):
    """The smoothing constant, read off the penalty of one belief added to a copy."""
    if hasattr(prior, "alpha"):
        return prior.alpha
    more = copy.deepcopy(prior)
    more.add_sparsity_prior(np.array([0]), None, 1)
    x = np.zeros(prior.n)
    return float(more.log_distribution(x)[2] - prior.log_distribution(x)[2])


def compare(case, prior, led, what, rtol=1e-8):
    case.check(prior.n == led.n, what + ": number of parameters", prior.n, led.n)
    rng = case.rng
    scale = np.concatenate([[1.]] + [np.abs(mu / r[r != 0]) for r, mu, g in led.b if mu])
    for _ in range(4):
        x = rng.randn(led.n) * 10. ** rng.uniform(-2, 2) * gen.pick(rng, 1., np.median(scale))
        a, b, p = prior.log_distribution(x)
        wa, wb, wp = led.evaluate(x, alpha_of(prior))
        case.close(dense(a), wa, what + ": quadratic form", rtol)
        case.close(np.asarray(dense(b)).ravel(), wb, what + ": linear term", rtol)
        case.close(float(p), wp, what + ": penalty", rtol)
        case.event("prior evaluations")


def one(n, i, c):
    r = np.zeros(n)
    r[i] = c
    return r


@monitor(REGISTRY, quick=225, thorough=5000)
def eiv_prior(case):
    rng = case.rng
    n, lap = rng.randint(2, 9), bool(rng.randint(2))
    use_diag, each = bool(rng.rand() < .4), bool(rng.rand() < .6)
    reg = bool(rng.rand() < .4) and not lap
    lp = float(gen.pick(rng, 200., 20., 1., rng.uniform(.1, 50)))
    y = estimate(rng, n, lap)
    if n > 2 and rng.rand() < .1:
        y = np.asfortranarray(y)
    case.cover("n=%d lap=%s diag=%s each=%s reg=%s w=%g" % (n, lap, use_diag, each, reg, lp))
    fr = Frozen(y=y)
    prior = run.build_complex_prior(n, lp, y, lap, use_diag, each, reg)
    fr.verify(case, "build_complex_prior")
    P = Params(n, lap)
    led = Ledger(P.size)
    v = P.vec(y)
    for k in P.off():
        led.b.append((one(P.size, k, 1 / abs(v[k])), 0., 1))
    s = (y + y.T) / 2
    if use_diag:
        ref = -np.diag(y)                     # minus the diagonal stands for the sum of the other entries of a row
    else:
        ref = s.sum(axis=1) - np.diag(s)
    if lap:
        ref = -ref
    ref = np.concatenate((ref.real, ref.imag))
    if each:
        for k in range(2 * n):
            idx = P.row(k % n, k // n)
            r = np.zeros(P.size)
            r[idx] = lp / ref[k]
            led.b.append((r, lp, 1))
        if reg:
            d = np.array([p for p, (i, j) in enumerate(P.pairs) if i == j])
            for k, c in zip(np.concatenate((d, d + P.m)), np.concatenate((np.diag(y).real, np.diag(y).imag))):
                led.b.append((one(P.size, k, lp), lp * c, 1))
    else:
        for part in (0, 1):
            off = P.off().reshape(2, -1)[part]
            tot = ref[part * n:(part + 1) * n].sum() / 2        # every pair counts once in the parameters, twice in the rows
            r = np.zeros(P.size)
            r[off] = lp / tot
            led.b.append((r, lp, 1))
    compare(case, prior, led, "prior")
    if not use_diag:
        # the estimate itself: relative size one for every sparsity belief, no contrast
        a, b, p = prior.log_distribution(v)
        want = len(P.off()) * (1 + alpha_of(prior))
        case.check(abs(p - want) < 1e-6 * want * max(1., lp), "penalty of the estimate itself", p, want)
    # free diagonal
    if not lap and not reg:
        a = dense(prior.log_distribution(rng.randn(P.size))[0])
        d = np.setdiff1d(np.arange(P.size), P.off())
        case.check(not np.any(a[d]) and not np.any(a[:, d]), "the diagonal is free")


@monitor(REGISTRY, quick=90, thorough=2000, known="lasso-weights")
def lasso_prior(case):
    """Adaptive weights of the regularised least squares prior: inversely proportional to the estimate."""
    rng = case.rng
    n, lap = rng.randint(2, 8), bool(rng.randint(2))
    y = estimate(rng, n, lap)
    three = rng.rand() < .4
    case.cover("n=%d lap=%s 3ph=%s" % (n, lap, three))
    fr = Frozen(y=y)
    if three:
        E, DT = elimination_sym_matrix(n), duplication_matrix(n)
        if lap:
            E, DT = elimination_lap_matrix(n) @ E, DT @ transformation_matrix(n)
        prior = run3ph.build_lasso_prior(n, y, E, DT)
    else:
        prior = run.build_lasso_prior(n, y, lap)
    fr.verify(case, "build_lasso_prior")
    P = Params(n, lap)
    v = np.abs(P.vec(y))
    case.check(prior.n == P.size, "number of parameters", prior.n, P.size)
    x = rng.randn(P.size) * 10. ** rng.uniform(-2, 2)
    a, b, p = prior.log_distribution(x)
    good, bad = Ledger(P.size), Ledger(P.size)
    good.b = [(one(P.size, k, 1 / v[k]), 0., 1) for k in range(P.size)]
    bad.b = [(one(P.size, k, v[k]), 0., 1) for k in range(P.size)]

    def fits(led):
        wa, wb, wp = led.evaluate(x, alpha_of(prior))
        return np.allclose(dense(a), wa, rtol=1e-8, atol=1e-10 * np.max(np.abs(wa))) and abs(p - wp) <= 1e-8 * wp

    case.check(not np.any(dense(b)), "sparsity beliefs are centred on zero")
    if fits(good):
        case.check(True, "weights inversely proportional to the estimate")
        return
    case.check(fits(bad), "adaptive weights, neither inverse (documented) nor inverted twice (known finding)")
    case.finding("lasso-weights", True, "weights of the lasso prior are proportional to the unregularised estimate")


def library_like(rng, n):
    """A matrix with the neighbourhoods the exact values are written for (and random ones elsewhere)."""
    y = np.zeros((n, n), dtype=complex)

    def put(i, j):
        v = -rng.uniform(.5, 5) + 1j * rng.uniform(.5, 9)
        y[i, j] = y[j, i] = v
    special = {0: [1], 25: [24, 26], 26: [25, 27, 28]}
    other = {7: [6, 8], 20: [19, 21], 21: [20, 22]}
    for d in (special, other):
        for i, ks in d.items():
            for k in ks:
                put(i, k)
    closed = set(special) | set(other)
    for _ in range(2 * n):
        i, j = rng.randint(n, size=2)
        if i != j and i not in closed and j not in closed:
            put(i, j)
    y -= np.diag(y.sum(axis=1)) * 1.05
    return y


@monitor(REGISTRY, quick=36, thorough=300)
def known_lines(case):
    """Exact values are added centred on these values; the earlier beliefs stay."""
    rng = case.rng
    n = rng.randint(29, 34)
    lap = bool(rng.rand() < .4)
    y = library_like(rng, n)
    lp = float(gen.pick(rng, 200., 20., 3., 1., rng.uniform(.02, 1)))
    kind = gen.pick(rng, "optimal", "optimal", "suboptimal", "wrong optimal", "wrong suboptimal", "optimal wrong", "suboptimal wrong")
    case.cover("n=%d lap=%s %s" % (n, lap, kind))
    P = Params(n, lap)

    def base():
        p = SparseSmoothPrior(smoothness_param=1e-6, n=P.size)
        p.add_sparsity_prior(np.arange(5), weights=np.arange(1., 6), orders=SmoothPrior.LAPLACE)
        return p
    led = Ledger(P.size)
    led.b = [(one(P.size, k, k + 1.), 0., 1) for k in range(5)]
    before = base()
    fr = Frozen(y=y)
    got = run.add_known_lines(n, before, lp, y, lap, kind)
    fr.verify(case, "add_known_lines")
    nodes = (7, 20, 21) if "subopt" in kind else (0, 25, 26)
    v = P.vec(y) * (1.1 if "wrong" in kind else 1.)
    w = lp * (.01 if "wrong" in kind else 1.)
    known = [p for p, (i, j) in enumerate(P.pairs) if i != j and (i in nodes or j in nodes)]
    for k in known + [p + P.m for p in known]:
        led.b.append((one(P.size, k, w), w * v[k], 1))
    compare(case, got, led, "known lines (%s)" % kind)


@monitor(REGISTRY, quick=60, thorough=1000)
def exact_prior(case):
    """The sanity prior knows every off-diagonal parameter."""
    rng = case.rng
    n = rng.randint(2, 8)
    y = estimate(rng, n, False)
    y = (y + y.T) / 2
    case.cover("n=%d" % n)
    prior = run.build_loads_id_prior(n, y)
    P = Params(n, False)
    led = Ledger(P.size)
    v = P.vec(y)
    led.b = [(one(P.size, k, 1.), v[k], 1) for k in P.off()]
    compare(case, prior, led, "exact prior")
