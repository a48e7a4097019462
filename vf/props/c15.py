"""C15: injected sensor noise."""
import numpy as np
from src.simulation.noise import (add_cartesian_noise_to_measurement, add_noise_in_cartesian_coordinates,
                                  add_noise_in_polar_coordinates, add_polar_noise_to_measurement)
from src.models.noise_transformation import exact_noise_covariance
from vf.core import monitor, Frozen, dense
from vf import gen

REGISTRY = []
SIGMAS = 7.         # every statistic is judged at seven of its standard errors


def gaussian(case, e, sd, what):
    """e: (T, n) errors, sd: their declared deviations. Judges mean, deviation, shape and independence."""
    t, n = e.shape
    sd = np.broadcast_to(sd, (n,))
    x = e / sd
    case.check(np.max(np.abs(x.mean(axis=0))) < SIGMAS / np.sqrt(t), what + ": zero mean", x.mean(axis=0))
    s = np.sqrt(np.mean(x ** 2, axis=0))
    case.check(np.max(np.abs(s - 1)) < SIGMAS / np.sqrt(2 * t) + 1e-3, what + ": declared deviation (ratio)", s)
    case.check(np.max(np.abs(np.mean(x ** 3, axis=0))) < SIGMAS * np.sqrt(15. / t) + 1e-3, what + ": skewness", np.mean(x ** 3, axis=0))
    case.check(np.max(np.abs(np.mean(x ** 4, axis=0) - 3)) < SIGMAS * np.sqrt(96. / t) + 1e-2, what + ": kurtosis",
               np.mean(x ** 4, axis=0))
    for lag in (1, 2, 5):
        c = np.mean(x[lag:] * x[:-lag], axis=0)
        case.check(np.max(np.abs(c)) < SIGMAS / np.sqrt(t - lag), what + ": independent samples", lag, c)
    h = t // 2
    c = np.mean(x[:h] * x[h:2 * h], axis=0)
    case.check(np.max(np.abs(c)) < SIGMAS / np.sqrt(h), what + ": independent halves", c)
    case.event("noise samples judged", e.size)
    return x


def independent(case, xs, what):
    x = np.hstack(xs)
    t = len(x)
    c = x.T @ x / t
    np.fill_diagonal(c, 0)
    case.check(np.max(np.abs(c)) < SIGMAS / np.sqrt(t), what + ": independent channels", c)
    for lag in (1, 3):
        c = x[lag:].T @ x[:-lag] / (t - lag)
        case.check(np.max(np.abs(c)) < SIGMAS / np.sqrt(t - lag), what + ": independent channels and samples", c)


def signal(rng, t, n, mag=None):
    """Phasors with slowly and quickly varying magnitude and any angle, zero and negative ones included."""
    m = rng.uniform(.5, 5, n) if mag is None else mag
    a = rng.uniform(-np.pi, np.pi, n)
    a[rng.rand(n) < .3] = 0.
    z = m * np.exp(1j * a) * np.ones((t, 1))
    if rng.rand() < .5:
        z = z * (1 + .3 * rng.rand(t, n)) * np.exp(1j * rng.uniform(-3, 3, (t, n)))
    return z


def errors(z, noisy):
    return np.abs(noisy) - np.abs(z), np.angle(noisy * np.conj(z))


def deviations(rng, n, lo, hi):
    """Deviation in one of the accepted forms and its value per channel."""
    kind = gen.pick(rng, "float", "np.float64", "size 1", "per channel", "per channel")
    if kind == "per channel":
        v = 10. ** rng.uniform(np.log10(lo), np.log10(hi), n)
        return v, v, kind
    v = float(10. ** rng.uniform(np.log10(lo), np.log10(hi)))
    return {"float": v, "np.float64": np.float64(v), "size 1": np.array([v])}[kind], np.full(n, v), kind


@monitor(REGISTRY, quick=192, thorough=1500)
def polar(case):
    rng = case.rng
    t, n = int(gen.pick(rng, 4000, 12000, 30000)), rng.randint(1, 5)
    if case.index % 12 == 11:
        t, n = 2000, rng.randint(17, 60)
    z = signal(rng, t, n)
    sm, vm, km = deviations(rng, n, 1e-5, .02)
    sp, vp, kp = deviations(rng, n, 1e-5, .05)
    case.cover("T=%d n=%d magnitude %s phase %s" % (t, n, km, kp))
    fr = Frozen(z=z, sm=sm, sp=sp)
    seed = rng.randint(2 ** 31 - 1)
    np.random.seed(seed)
    noisy = add_polar_noise_to_measurement(z, sm, sp)
    fr.verify(case, "add_polar_noise_to_measurement")
    case.check(noisy.shape == z.shape, "same shape", noisy.shape)
    em, ep = errors(z, noisy)
    xm = gaussian(case, em, vm, "magnitude noise")
    xp = gaussian(case, ep, vp, "phase noise")
    independent(case, (xm, xp), "magnitude and phase noise")
    other = add_polar_noise_to_measurement(z, sm, sp)
    xo, po = errors(z, other)
    independent(case, (xm, xo / vm, po / vp), "noise of two calls")
    np.random.seed(seed)
    case.same(add_polar_noise_to_measurement(z, sm, sp), noisy, "same seed, same noise")


@monitor(REGISTRY, quick=128, thorough=1000)
def polar_covariance(case):
    """The Cartesian covariance of the injected noise is the one handed to the estimators."""
    rng = case.rng
    t = 40000
    n = rng.randint(1, 3)
    z1 = signal(rng, 1, n)
    z = np.tile(z1, (t, 1))
    sm, sp = rng.uniform(.01, .2, n), float(rng.uniform(.02, .4))
    case.cover("n=%d sd %.3g %.3g" % (n, sm[0], sp))
    noisy = add_polar_noise_to_measurement(z, sm, sp)
    c = dense(exact_noise_covariance(z1, sm, sp))
    x = np.hstack((noisy.real, noisy.imag))
    got = np.cov(x.T, bias=True)
    d = np.sqrt(np.diag(c))
    r = (got - c) / np.outer(d, d)
    case.check(np.max(np.abs(r)) < SIGMAS * np.sqrt(6. / t), "covariance of the injected noise", got, c)
    case.event("noise samples judged", x.size)


@monitor(REGISTRY, quick=128, thorough=1000)
def any_ratio(case):
    """Signals smaller than their noise (dead channels included) and large phase noise: moments of the noisy phasors."""
    rng = case.rng
    t, n = 20000, rng.randint(1, 7)
    f = rng.uniform(-np.pi, np.pi, n)
    sm = 10. ** rng.uniform(-6, 2, n) if rng.rand() < .7 else np.full(n, 10. ** rng.uniform(-6, 2))
    sp = float(gen.pick(rng, 0., 10. ** rng.uniform(-4, -1), rng.uniform(.1, 2.5)))
    m = sm * 10. ** rng.uniform(-3, 2, n) * (rng.rand(n) < .7)
    f[m == 0] = 0
    case.cover("n=%d sd %.3g %.3g ratio %.3g" % (n, sm[0], sp, m[0] / sm[0]))
    z = np.tile(m * np.exp(1j * f), (t, 1))
    noisy = add_polar_noise_to_measurement(z, float(sm[0]) if np.all(sm == sm[0]) and rng.rand() < .5 else sm, sp)
    x, r = noisy * np.exp(-1j * f) / np.hypot(m, sm), m / np.hypot(m, sm)
    e = SIGMAS * 2. / np.sqrt(t)
    q = sp ** 2
    for got, want, what in ((x, r * np.exp(-q / 2), "mean"), (x ** 2, np.exp(-2 * q) + 0 * r, "mean square"),
                            (np.abs(x) ** 2, 1. + 0 * r, "power"),
                            (x ** 3, (r ** 3 + 3 * r * (1 - r * r)) * np.exp(-4.5 * q), "third moment")):
        tol = e * (1 if what != "third moment" else 2.5)
        case.check(np.max(np.abs(got.mean(axis=0) - want)) < tol, what + " of the noisy phasors", got.mean(axis=0), want)
    if sp == 0:
        gaussian(case, ((noisy * np.exp(-1j * f)).real - m), sm, "magnitude noise of any signal")
        case.check(np.max(np.abs(x.imag)) < 1e-9, "magnitude noise keeps the direction", np.max(np.abs(x.imag)))
    case.event("noise samples judged", x.size)


@monitor(REGISTRY, quick=240, thorough=2500)
def exactness(case):
    """No deviation, no noise; per-channel forms; every scalar form; inputs kept."""
    rng = case.rng
    t, n = rng.randint(1, 9), rng.randint(1, 9)
    z = signal(rng, t, n)
    zero = gen.pick(rng, 0., 0, np.float64(0), np.int64(0), np.zeros(1), np.zeros(n), np.zeros(n, dtype=int))
    zero2 = gen.pick(rng, 0., 0, np.float64(0), np.int64(0), np.zeros(1), np.zeros(n))
    case.cover("T=%d n=%d %s %s" % (t, n, type(zero).__name__, np.shape(zero)))
    fr = Frozen(z=z)
    case.close(add_polar_noise_to_measurement(z, zero, zero2), z, "no deviation, unchanged data", 1e-13)
    sm = rng.uniform(.01, .1, n) * (rng.rand(n) < .5)
    sp = rng.uniform(.01, .1, n) * (rng.rand(n) < .5)
    noisy = add_polar_noise_to_measurement(z, sm, sp)
    em, ep = errors(z, noisy)
    for i in range(n):
        case.check((np.max(np.abs(em[:, i])) < 1e-12) == (sm[i] == 0), "magnitude noise on its own channels only", em[:, i])
        case.check((np.max(np.abs(ep[:, i])) < 1e-12) == (sp[i] == 0), "phase noise on its own channels only", ep[:, i])
    one = gen.pick(rng, 1, np.int64(1), np.float32(1), np.array(1.), np.array([1]))
    seed = rng.randint(2 ** 31 - 1)
    np.random.seed(seed)
    a = add_polar_noise_to_measurement(z, one, 0.)
    np.random.seed(seed)
    case.close(a, add_polar_noise_to_measurement(z, 1., 0.), "deviation of any numeric type", 1e-6)
    # one dimensional data, as a single channel
    b = add_polar_noise_to_measurement(z[:, 0].copy(), float(sm[0]), float(sp[0]))
    case.check(b.shape == (t,), "single channel data", b.shape)
    fr.verify(case, "noise functions")


@monitor(REGISTRY, quick=160, thorough=1200)
def cartesian(case):
    rng = case.rng
    t, n = int(gen.pick(rng, 4000, 20000)), rng.randint(1, 5)
    z = signal(rng, t, n)
    ra, ia = rng.uniform(.001, .2), rng.uniform(.001, .2)
    case.cover("T=%d n=%d" % (t, n))
    fr = Frozen(z=z)
    seed = rng.randint(2 ** 31 - 1)
    np.random.seed(seed)
    noisy, rs, is_ = add_cartesian_noise_to_measurement(z, ra, ia)
    fr.verify(case, "add_cartesian_noise_to_measurement")
    wr, wi = np.mean(np.abs(z.real), axis=0) * ra / 3, np.mean(np.abs(z.imag), axis=0) * ia / 3
    case.close(rs, wr, "reported real deviation", 1e-10)
    case.close(is_, wi, "reported imaginary deviation", 1e-10)
    xs = []
    for e, s, what in ((noisy.real - z.real, wr, "real noise"), (noisy.imag - z.imag, wi, "imaginary noise")):
        on = s > 1e-9
        case.check(np.max(np.abs(e[:, ~on])) < 1e-6 if np.any(~on) else True, what + ": none on zero channels")
        if np.any(on):
            xs.append(gaussian(case, e[:, on], s[on], what))
    independent(case, xs, "Cartesian noise")
    np.random.seed(seed)
    case.same(add_cartesian_noise_to_measurement(z, ra, ia)[0], noisy, "same seed, same noise")
    case.close(add_cartesian_noise_to_measurement(z, 0, 0)[0], z, "no deviation, unchanged data", 1e-15)


@monitor(REGISTRY, quick=96, thorough=600)
def both_quantities(case):
    """Wrappers: voltages and currents in order, with their own deviations, independent of each other."""
    rng = case.rng
    t, n = 8000, rng.randint(1, 4)
    v, i = signal(rng, t, n), signal(rng, t, n, rng.uniform(20, 60, n))
    polar_ = rng.rand() < .5
    case.cover("polar=%s n=%d" % (polar_, n))
    fr = Frozen(v=v, i=i)
    if polar_:
        sm, sp = float(rng.uniform(1e-4, .02)), float(rng.uniform(1e-4, .02))
        nv, ni = add_noise_in_polar_coordinates(i, v, sm, sp)
        xs = []
        for z, y, q in ((v, nv, "voltage"), (i, ni, "current")):
            em, ep = errors(z, y)
            xs += [gaussian(case, em, sm, q + " magnitude"), gaussian(case, ep, sp, q + " phase")]
    else:
        ai, av = rng.uniform(.001, .05), rng.uniform(.06, .2)
        nv, ni = add_noise_in_cartesian_coordinates(i, v, ai, av)
        xs = []
        for z, y, a, q in ((v, nv, av, "voltage"), (i, ni, ai, "current")):
            for part in (np.real, np.imag):
                s = np.mean(np.abs(part(z)), axis=0) * a / 3
                on = s > 1e-6
                if np.any(on):
                    xs.append(gaussian(case, (part(y) - part(z))[:, on], s[on], q + " noise"))
    fr.verify(case, "noise wrapper")
    independent(case, xs, "voltage and current noise")
