"""C03: polar noise covariance against numerical integration of the noise distribution (Gauss-Hermite quadrature)."""
import numpy as np
from src.models import noise_transformation as nt
from vf.core import monitor, dense
from vf import gen

REGISTRY = []
NODES, WEIGHTS = np.polynomial.hermite_e.hermegauss(80)
WEIGHTS = WEIGHTS / np.sum(WEIGHTS)


def moments(m, f, sm, sp):
    """Central second moments of (m+em)exp(j(f+ef)) by quadrature."""
    r = m + sm * NODES[:, None]
    t = f + sp * NODES[None, :]
    w = WEIGHTS[:, None] * WEIGHTS[None, :]
    re, im = r * np.cos(t), r * np.sin(t)
    # deviations from the mean without cancellation of the large part
    dre, dim = re - m * np.cos(f), im - m * np.sin(f)
    mre, mim = np.sum(w * dre), np.sum(w * dim)
    return np.sum(w * (dre - mre) ** 2), np.sum(w * (dim - mim) ** 2), np.sum(w * (dre - mre) * (dim - mim))


def averaged(m, f, sm, sp):
    """Exact covariance averaged over the true phasors (m-em)exp(j(f-ef)) compatible with the measurement."""
    nodes, weights = np.polynomial.hermite_e.hermegauss(24)
    weights = weights / np.sum(weights)
    out = np.zeros(3)
    for a, wa in zip(nodes, weights):
        for b, wb in zip(nodes, weights):
            out += wa * wb * np.array(closed(m + sm * a, f + sp * b, sm, sp))
    return out


def closed(m, f, sm, sp):
    """The same moments in closed form (checked against the quadrature on each case)."""
    s = sp ** 2
    e2 = m * m + sm * sm
    c2, mean = np.exp(-2 * s), np.exp(-s)
    vr = e2 * (1 + c2 * np.cos(2 * f)) / 2 - m * m * mean * np.cos(f) ** 2
    vi = e2 * (1 - c2 * np.cos(2 * f)) / 2 - m * m * mean * np.sin(f) ** 2
    return vr, vi, e2 * c2 * np.sin(2 * f) / 2 - m * m * mean * np.sin(2 * f) / 2


def draw(rng):
    m = gen.pick(rng, 0., 1., rng.uniform(0, 3), 10. ** rng.uniform(-4, 4), 10. ** rng.uniform(-2, 2))
    f = gen.pick(rng, rng.uniform(-np.pi, np.pi), rng.uniform(-np.pi, np.pi), rng.randint(-4, 5) * np.pi / 4)
    scale = max(m, 1e-3)
    sm = gen.pick(rng, 0., scale * 10. ** rng.uniform(-4, -1), scale * rng.uniform(.1, 2), scale * 10. ** rng.uniform(-3, 0))
    sp = gen.pick(rng, 0., 10. ** rng.uniform(-4, -1), rng.uniform(.1, 1.2), 10. ** rng.uniform(-3, 0), rng.uniform(.1, 2.5))
    return m, f, float(sm), float(sp)


def entries(fn, z, sm, sp):
    s = dense(fn(z, sm, sp))
    k = z.size
    return s[:k, :k].diagonal(), s[k:, k:].diagonal(), s[:k, k:].diagonal()


def run(case, fn, oracle, what):
    rng = case.rng
    t, n = rng.randint(1, 4), rng.randint(1, 4)
    vec = rng.rand() < .4
    d = [[draw(rng) for _ in range(n)] for _ in range(t)]
    sp = d[0][0][3]
    sm = [d[0][i][2] for i in range(n)] if vec else [d[0][0][2]] * n
    mm = np.array([[d[k][i][0] for i in range(n)] for k in range(t)])
    ff = np.array([[d[k][i][1] for i in range(n)] for k in range(t)])
    if rng.rand() < .3:  # quantities that are small in their unit, as currents of lightly loaded nodes
        u = 10. ** -rng.uniform(2, 7)
        mm, sm = mm * u, [a * u for a in sm]
    z = mm * np.exp(1j * ff)
    case.cover("%s T=%d n=%d vec=%s sm=%.3g sp=%.3g m=%.3g" % (what, t, n, vec, sm[0], sp, mm[0, 0]), max(sm) + sp > 0,
               {"magnitude": mm[0, 0], "angle": ff[0, 0], "sd_magnitude": sm[0], "sd_phase": sp})
    vr, vi, cv = entries(fn, z, np.array(sm) if vec else sm[0], sp)
    k = 0
    for i in range(n):
        for j in range(t):
            m, f = abs(z[j, i]), np.angle(z[j, i])
            want = np.array(oracle(m, f, sm[i], sp))
            got = np.array([vr[k], vi[k], cv[k]])
            case.close(got, want, "%s: real, imaginary variance and covariance (m=%.6g f=%.6g sd %.4g %.4g)" % (
                what, m, f, sm[i], sp), rtol=2e-7, atol=4e-15 * (m * m + sm[i] ** 2))
            k += 1
            case.event("covariances", 1)


@monitor(REGISTRY, quick=240, thorough=3000)
def exact(case):
    run(case, nt.exact_noise_covariance, moments, "exact covariance")


@monitor(REGISTRY, quick=180, thorough=2500)
def linearised(case):
    def oracle(m, f, sm, sp):
        # Jacobian of (m, f) -> (re, im) applied to diag(sm^2, sp^2)
        j = np.array([[np.cos(f), -m * np.sin(f)], [np.sin(f), m * np.cos(f)]])
        c = j @ np.diag([sm ** 2, sp ** 2]) @ j.T
        return c[0, 0], c[1, 1], c[0, 1]
    run(case, nt.naive_noise_covariance, oracle, "linearised covariance")


@monitor(REGISTRY, quick=120, thorough=1200)
def conditioned(case):
    run(case, nt.average_true_noise_covariance, averaged, "measurement-conditioned covariance")


@monitor(REGISTRY, quick=180, thorough=1500)
def conditioned_parts(case):
    """The three public parts give the same numbers as the assembled matrix."""
    m, f, sm, sp = draw(case.rng)
    z = np.array([m * np.exp(1j * f)])
    case.cover("m=%.4g f=%.4g sm=%.4g sp=%.4g" % (m, f, sm, sp), sm + sp > 0)
    want = averaged(abs(z[0]), np.angle(z[0]), sm, sp)
    got = [np.ravel(g(z, sm, sp))[0] for g in (nt.average_true_var_real, nt.average_true_var_imag, nt.average_true_cov)]
    case.close(np.array(got, dtype=float), want, "parts of the measurement-conditioned covariance (m=%.6g f=%.6g sd %.4g %.4g)"
               % (m, f, sm, sp), rtol=2e-7, atol=4e-15 * (m * m + sm ** 2))


@monitor(REGISTRY, quick=36, thorough=120)
def sampled(case):
    """Empirical covariance of a large noisy sample, built from the definition of the noise only."""
    rng = case.rng
    m, f, sm, sp = rng.uniform(.3, 3), rng.uniform(-np.pi, np.pi), rng.uniform(.02, .5), rng.uniform(.02, .8)
    case.cover("m=%.4g f=%.4g sm=%.4g sp=%.4g" % (m, f, sm, sp))
    k = 200000
    s = (m + sm * rng.randn(k)) * np.exp(1j * (f + sp * rng.randn(k)))
    c = np.cov(s.real, s.imag)
    vr, vi, cv = entries(nt.exact_noise_covariance, np.array([[m * np.exp(1j * f)]]), sm, sp)
    # sampling error of a covariance entry: about scale*sqrt(2/k), 8 sigma
    tol = 8 * np.sqrt(3. / k) * (c[0, 0] + c[1, 1]) * 2
    case.close(np.array([vr[0], vi[0], cv[0]]), np.array([c[0, 0], c[1, 1], c[0, 1]]), "covariance of sampled noise", 0, tol)


@monitor(REGISTRY, quick=18, thorough=60)
def real_size(case):
    """Whole measurement campaigns at once: every entry against the closed form of the moments."""
    rng = case.rng
    t, n = rng.randint(50, 600), rng.randint(4, 57)
    z = rng.uniform(.2, 2, (t, n)) * np.exp(1j * (rng.uniform(-np.pi, np.pi) + rng.uniform(0, 2) * rng.randn(t, n)))
    z[rng.rand(t, n) < .02] = 0
    sm = rng.uniform(1e-4, .3, n) if rng.rand() < .5 else float(rng.uniform(1e-4, .3))
    sp = float(rng.uniform(1e-4, .5))
    case.cover("T=%d n=%d vec=%s" % (t, n, np.ndim(sm) > 0))
    m, f, s = np.abs(z), np.angle(z), np.broadcast_to(sm, (t, n))
    j11, j12, j21, j22 = np.cos(f), -m * np.sin(f), np.sin(f), m * np.cos(f)
    lin = (j11 * s) ** 2 + (j12 * sp) ** 2, (j21 * s) ** 2 + (j22 * sp) ** 2, j11 * j21 * s ** 2 + j12 * j22 * sp ** 2
    for fn, want, what in ((nt.exact_noise_covariance, closed(m, f, s, sp), "exact"),
                           (nt.naive_noise_covariance, lin, "linearised")):
        got = fn(z, sm, sp)
        case.check(got.shape == (2 * t * n, 2 * t * n), "size of the covariance", got.shape)
        got, k = got.tocsr(), t * n
        parts = got[:k, :k].diagonal(), got[k:, k:].diagonal(), got[:k, k:].diagonal()
        for g, w, name in zip(parts, want, ("real variance", "imaginary variance", "covariance")):
            case.close(g, w.T.reshape(-1), "%s %s" % (what, name), rtol=1e-7, atol=1e-13)
        case.close(got[k:, :k].diagonal(), parts[2], "%s: symmetric" % what)
        case.check(got.nnz <= 4 * k, "%s: nothing else" % what, got.nnz)
    cond = entries_sparse(nt.average_true_noise_covariance(z, sm, sp), t * n)
    for _ in range(4):
        i, j = rng.randint(t), rng.randint(n)
        want = averaged(m[i, j], f[i, j], s[i, j], sp)
        case.close(np.array([p[j * t + i] for p in cond]), want, "measurement-conditioned entry (%d, %d)" % (i, j), 1e-6, 1e-13)


def entries_sparse(s, k):
    s = s.tocsr()
    return s[:k, :k].diagonal(), s[k:, k:].diagonal(), s[:k, k:].diagonal()
