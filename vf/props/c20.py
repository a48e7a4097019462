"""C20: error metrics."""
import numpy as np
from src.models import error_metrics as em
from vf.core import monitor, Frozen
from vf import gen

REGISTRY = []


def data(rng):
    nd = rng.randint(1, 3)
    s = tuple(rng.randint(1, 9, nd))
    kind = gen.pick(rng, "c128", "f64", "c128", "int", "c64")
    a = gen.matrix(rng, s + (1,) * (2 - nd), kind).reshape(s)
    b = gen.matrix(rng, s + (1,) * (2 - nd), kind).reshape(s)
    c = gen.matrix(rng, s + (1,) * (2 - nd), kind).reshape(s)
    if rng.rand() < .4:
        mask = rng.rand(*s) < .5
        a = np.where(mask, a, 0).astype(a.dtype)
    if kind not in ("int", "c64") and rng.rand() < .5:  # any unit
        k = 10. ** rng.uniform(-14, 10)
        a, b, c = k * a, k * b, k * c
    return tuple(gen.layout(rng, v) for v in (a, b, c)), kind, s


@monitor(REGISTRY, quick=800, thorough=8000)
def values(case):
    rng = case.rng
    (y, h, g), kind, s = data(rng)
    case.cover("%s %s zeros=%d" % (s, kind, np.sum(y == 0)), np.any(y != 0))
    fr = Frozen(y=y, h=h)
    tol = 1e-5 if kind == "c64" else 1e-10
    yy, hh = np.array(y, dtype=complex).ravel(), np.array(h, dtype=complex).ravel()
    d = [abs(complex(p) - complex(q)) for p, q in zip(yy, hh)]
    import math
    fro = math.sqrt(math.fsum(v * v for v in d))
    ref = math.sqrt(math.fsum(abs(complex(v)) ** 2 for v in yy))
    nz = math.sqrt(math.fsum(v * v for v, r in zip(d, yy) if r != 0))
    case.close(em.fro_error(y, h), fro, "Frobenius error", tol)
    case.close(em.max_error(y, h), max(d), "maximum error is the largest entry error", tol)
    m = em.error_metrics(y, h) if ref > 0 else None
    if ref > 0:
        case.close(em.rrms_error(y, h), 100 * fro / ref, "relative error in percent", tol)
        case.close(em.map_error(y, h), 100 * nz / ref, "average relative error over the non-zero references", tol)
        case.close([m.fro_error, m.max_error, m.rrms_error, m.map_error], [fro, max(d), 100 * fro / ref, 100 * nz / ref],
                   "combined report", tol)
        case.check(m.fro_error == em.fro_error(y, h) and m.max_error == em.max_error(y, h) and
                   m.rrms_error == em.rrms_error(y, h) and m.map_error == em.map_error(y, h),
                   "combined report holds the four metrics", m)
        case.event("reports")
    fr.verify(case, "error metrics")


@monitor(REGISTRY, quick=400, thorough=4000)
def distances(case):
    rng = case.rng
    (y, h, g), kind, s = data(rng)
    if kind == "c64":
        y, h, g = y.astype(complex), h.astype(complex), g.astype(complex)
    case.cover("%s %s" % (s, kind), y.size > 1)
    for f in (em.fro_error, em.max_error):
        n = f.__name__
        case.check(f(y, y.copy()) == 0, n + " of equal data is zero", f(y, y.copy()))
        z = y.copy()
        i = tuple(rng.randint(k) for k in s)
        z[i] = z[i] + 1
        case.check(f(y, z) > 0, n + " of different data is positive", f(y, z))
        case.close(f(y, z), float(abs(complex(z[i]) - complex(y[i]))), n + " of one differing entry", 1e-9)
        case.close(f(y, h), f(h, y), n + " is symmetric")
        case.check(f(y, g) <= (f(y, h) + f(h, g)) * (1 + 1e-9), n + " obeys the triangle inequality", f(y, g), f(y, h), f(h, g))
        k = rng.uniform(.1, 9)
        case.close(f(k * y, k * h), k * f(y, h), n + " scales")
        case.close(f(y + g, h + g), f(y, h), n + " is invariant to shifts",
                   atol=1e-9 * float(np.max(np.abs(g)) + np.max(np.abs(y)) + np.max(np.abs(h))))
    case.check(em.max_error(y, h) <= em.fro_error(y, h) * (1 + 1e-9), "maximum error is at most the Frobenius one")
    if np.any(y != 0):
        k = rng.uniform(.1, 9)
        for f in (em.rrms_error, em.map_error):
            case.close(f(k * y, k * h), f(y, h), f.__name__ + " does not depend on the unit", 1e-9)
        case.check(em.rrms_error(y, y.copy()) == 0 and em.map_error(y, y.copy()) == 0, "zero relative error of equal data")
        h2 = h.copy()
        h2[y == 0] = 1e6
        case.close(em.map_error(y, h2), em.map_error(y, h), "zero references do not count in the average relative error")
    if len(s) == 2:
        case.close(em.fro_error(y.T, h.T), em.fro_error(y, h), "layout does not matter")
        case.close(em.max_error(y.T, h.T), em.max_error(y, h), "layout does not matter")
