"""C04: structure, alignment and inversion of the noise covariances."""
import numpy as np
from scipy import sparse as sp
from src.models import noise_transformation as nt
from vf.core import monitor, Frozen, dense
from vf import gen

REGISTRY = []
MODELS = (nt.exact_noise_covariance, nt.naive_noise_covariance, nt.average_true_noise_covariance)


def data(rng, tmax=6, nmax=6, zeros=False):
    """Measurements of every kind; with zeros, some channels or samples that measure exactly nothing."""
    t, n = rng.randint(1, tmax + 1), rng.randint(1, nmax + 1)
    z = rng.uniform(.2, 3, (t, n)) * np.exp(1j * rng.uniform(-np.pi, np.pi, (t, n)))
    if rng.rand() < .2:
        z = np.round(z.real + 1) + 1j * np.round(z.imag)
        z[z == 0] = 1
    if rng.rand() < .3:  # exactly on an axis
        k = rng.rand(t, n) < .5
        z[k] = np.abs(z[k]) * gen.pick(rng, 1, 1j, -1, -1j)
    if zeros and rng.rand() < .3:
        z[(rng.rand(t, n) < .4) | (rng.rand(n) < .2)] = 0
    vec = rng.rand() < .6
    lo, scale = (-3, 1.) if rng.rand() < .4 else (rng.uniform(-5, -2), 10. ** rng.uniform(-6, 4))
    sm = 10. ** rng.uniform(lo, lo + 3, n) if vec else float(10. ** rng.uniform(lo, lo + 3))
    return gen.layout(rng, z * scale), sm * scale, float(10. ** rng.uniform(lo, lo + 2.7)), vec


@monitor(REGISTRY, quick=360, thorough=4000)
def alignment(case):
    rng = case.rng
    fn = MODELS[case.index % 3]
    z, sm, sd, vec = data(rng, zeros=True)
    t, n = z.shape
    case.cover("%s T=%d n=%d vec=%s" % (fn.__name__, t, n, vec), t * n > 1)
    fr = Frozen(z=z, sm=sm)
    s = fn(z, sm, sd)
    fr.verify(case, fn.__name__)
    case.check(sp.issparse(s) and s.shape == (2 * t * n, 2 * t * n), "sparse square matrix of size 2Tn", type(s), s.shape)
    d = dense(s)
    case.check(d.dtype.kind == "f" and np.all(np.isfinite(d)), "real finite matrix", d.dtype, d)
    case.same(d, d.T, "symmetric matrix")
    k = t * n
    off = d.copy()
    for a in (0, k):
        for b in (0, k):
            off[np.arange(k) + a, np.arange(k) + b] = 0
    case.check(not np.any(off), "only entries of the same sample and channel")
    # each entry equals the covariance of that measurement alone
    for _ in range(4):
        j, i = rng.randint(t), rng.randint(n)
        one = dense(fn(np.array([[z[j, i]]]), float(sm[i]) if vec else sm, sd))
        p = i * t + j
        case.close(d[np.ix_([p, p + k], [p, p + k])], one, "entry of sample %d channel %d" % (j, i), 1e-9)
    # per-channel deviations: each channel alone
    r = np.zeros((2 * k, 2 * k))
    for i in range(n):
        c = dense(fn(z[:, [i]], float(sm[i]) if vec else sm, sd))
        ix = np.concatenate((np.arange(i * t, (i + 1) * t), k + np.arange(i * t, (i + 1) * t)))
        r[np.ix_(ix, ix)] = c
    case.close(d, r, "assembled from the channels treated alone", 1e-10)
    w = np.linalg.eigvalsh(d)
    case.check(w[0] >= -1e-10 * max(w[-1], 0), "positive semi-definite", w)
    # changing one measurement changes only its entries
    z2 = np.array(z)
    j, i = rng.randint(t), rng.randint(n)
    z2[j, i] = (z2[j, i] or np.max(np.abs(z)) or 1.) * 1.7 * np.exp(1j)
    d2 = dense(fn(z2, sm, sd))
    p = i * t + j
    ch = np.argwhere(np.abs(d2 - d) > 1e-12 * np.max(np.abs(d)))
    case.check(set(np.unique(ch)) <= {p, p + k}, "a measurement changes only its own entries", ch)
    case.check(d2[p, p] != d[p, p] or d2[p + k, p + k] != d[p + k, p + k], "a measurement changes its own entries")


def inverse_case(case, fn, z, sm, sd):
    s, i = dense(fn(z, sm, sd)), dense(fn(z, sm, sd, inverted=True))
    case.check(i.shape == s.shape and np.all(np.isfinite(i)), "finite inverse of the same size", i)
    cond = np.linalg.cond(s)
    tol = 1e-12 * (1 + np.sqrt(cond)) + 1e-15 * cond
    if tol > .1:
        case.event("too ill-conditioned")
        return
    # balanced comparison: D S D and D^-1 I D^-1 with unit diagonal
    dg = np.sqrt(np.diag(s))
    a, b = s / np.outer(dg, dg), i * np.outer(dg, dg)
    c = np.linalg.cond(a)
    case.close(a @ b, np.eye(len(s)), "the inverted form is the inverse", 1e-9 + 1e-14 * c * c)
    case.close(b, np.linalg.inv(a), "inverse entries", 1e-9 + 1e-14 * c * c)


@monitor(REGISTRY, quick=360, thorough=4000)
def inversion(case):
    fn = MODELS[case.index % 3]
    z, sm, sd, vec = data(case.rng, 4, 4)
    case.cover("%s %s vec=%s" % (fn.__name__, z.shape, vec))
    fr = Frozen(z=z, sm=sm)
    inverse_case(case, fn, z, sm, sd)
    fr.verify(case, fn.__name__)


SCALARS = [float, np.float64, np.float32, lambda v: np.array(v), int, np.int64, np.int32, lambda v: np.array(int(v))]


@monitor(REGISTRY, quick=288, thorough=1500)
def scalar_types(case):
    rng = case.rng
    fn = MODELS[case.index % 3]
    z, _, _, _ = data(rng, 4, 4)
    a, b = SCALARS[rng.randint(len(SCALARS))], SCALARS[rng.randint(len(SCALARS))]
    vm, vp = float(gen.pick(rng, 1, 2, 0)), 1.
    case.cover("%s %s %s %s" % (fn.__name__, z.shape, type(a(vm)).__name__, type(b(vp)).__name__))
    want = dense(fn(z, vm, vp))
    case.close(fn(z, a(vm), b(vp)), want, "deviations of any numeric type", 1e-6 if np.float32 in (a, b) else 1e-12)
    if vm > 0:
        case.close(fn(z, a(vm), b(vp), True), dense(fn(z, vm, vp, True)), "inverted, any numeric type", 1e-5)
    case.close(fn(z, np.full(z.shape[1], vm), b(vp)), want, "equal deviations for all channels", 1e-6)
    case.close(fn(z, np.full(z.shape[1], int(vm)), vp), want, "integer deviations per channel", 1e-10)


@monitor(REGISTRY, quick=36, thorough=120)
def real_size(case):
    """Campaigns of thousands of samples: positions, inverse and independence of the samples."""
    rng = case.rng
    fn = MODELS[case.index % 3]
    n = rng.randint(2, 60)
    t = rng.randint(100, max(101, 70000 // n))
    z = rng.uniform(.2, 3, (t, n)) * np.exp(1j * rng.uniform(-np.pi, np.pi, (t, n)))
    vec = rng.rand() < .6
    lo, scale = rng.uniform(-5, -2), 10. ** rng.uniform(-5, 3)
    z = z * scale
    sm = 10. ** rng.uniform(lo, lo + 2, n) * scale if vec else float(10. ** rng.uniform(lo, lo + 2)) * scale
    sd = float(10. ** rng.uniform(lo, lo + 1.5))
    case.cover("%s T=%d n=%d vec=%s scale=%.1g" % (fn.__name__, t, n, vec, scale))
    z = gen.layout(rng, z)
    fr = Frozen(z=z, sm=sm)
    s, inv = fn(z, sm, sd), fn(z, sm, sd, inverted=True)
    fr.verify(case, fn.__name__)
    k = t * n
    case.check(s.shape == inv.shape == (2 * k, 2 * k), "size 2Tn", s.shape, inv.shape)
    case.check(max(s.nnz, inv.nnz) <= 4 * k, "only entries of the same sample and channel", s.nnz, inv.nnz)
    s, inv = s.tocsr(), inv.tocsr()
    e = s @ inv - sp.eye(2 * k)
    case.check(e.nnz == 0 or abs(e).max() < 1e-6, "the inverted form is the inverse", abs(e).max() if e.nnz else 0)
    parts = [m[a:a + k, b:b + k].diagonal().reshape((t, n), order="F") for m in (s, inv) for a, b in ((0, 0), (k, k), (0, k))]
    for _ in range(12):
        i, j = (rng.randint(t), rng.randint(n)) if rng.rand() < .7 else (gen.pick(rng, 0, t - 1), gen.pick(rng, 0, n - 1))
        one = dense(fn(np.array([[z[i, j]]]), float(sm[j]) if vec else sm, sd))
        case.close(np.array([p[i, j] for p in parts[:3]]), np.array([one[0, 0], one[1, 1], one[0, 1]]),
                   "entry of sample %d channel %d" % (i, j), 1e-9)
        one = np.linalg.inv(one)
        case.close(np.array([p[i, j] for p in parts[3:]]), np.array([one[0, 0], one[1, 1], one[0, 1]]),
                   "inverted entry of sample %d channel %d" % (i, j), 1e-6)
    # a part of the campaign alone
    a = np.sort(rng.randint(0, t + 1, 2))
    if a[0] < a[1]:
        part = fn(np.array(z[a[0]:a[1]]), sm, sd)
        case.close(part.diagonal()[:(a[1] - a[0]) * n].reshape((-1, n), order="F"), parts[0][a[0]:a[1]],
                   "samples alone give the same entries", 1e-10)
