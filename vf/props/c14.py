"""C14: phase and sequence coordinates."""
import numpy as np
from src.simulation.lines import (admittance_phase_to_sequence, admittance_sequence_to_phase,
                                  measurement_phase_to_sequence, measurement_sequence_to_phase)
from vf.core import monitor, Frozen, dense
from vf import gen

REGISTRY = []
W = np.exp(2j * np.pi / 3)
POS = np.array([1, W ** 2, W])
TO_SEQ = np.array([[1, 1, 1], [1, W, W ** 2], [1, W ** 2, W]]) / 3      # acts on columns of phase values


def form(rng, a):
    return np.matrix(a) if rng.rand() < .25 else gen.layout(rng, a)


def size(rng, small=9, large=57):
    """Mostly small, sometimes as large as the grids studied."""
    return rng.randint(1, small + 1) if rng.rand() < .95 else rng.randint(small, large)


def unit(rng):
    """Siemens, per unit, microsiemens, ..."""
    return 1. if rng.rand() < .6 else 10. ** rng.uniform(-14, 9)


def admittance(rng, n):
    kind = gen.pick(rng, "any", "any", "symmetric", "balanced", "real", "int")
    if kind == "balanced":
        b = [gen.laplacian(rng, n, rng.rand()) if n > 1 else np.array([[rng.randn() + 1j]]) for _ in range(2)]
        y = np.zeros((3 * n, 3 * n), dtype=complex)
        for i in range(n):
            for j in range(n):
                s, m = b[0][i, j], .3 * b[1][i, j]
                y[3*i:3*i+3, 3*j:3*j+3] = m + (s - m) * np.eye(3)
        return y, kind, b
    y = gen.cplx(rng, (3 * n, 3 * n))
    if kind == "symmetric":
        y = y + y.T
    if kind == "real":
        y = y.real
    if kind == "int":
        y = np.round(5 * y.real).astype(int)
    return y, kind, None


@monitor(REGISTRY, quick=640, thorough=8000)
def admittances(case):
    rng = case.rng
    n = size(rng)
    y, kind, b = admittance(rng, n)
    if kind != "int":
        y = y * unit(rng)
    arg = form(rng, y)
    case.cover("n=%d %s %s" % (n, kind, type(arg).__name__))
    fr = Frozen(y=arg)
    s = dense(admittance_phase_to_sequence(arg))
    p = dense(admittance_sequence_to_phase(arg))
    fr.verify(case, "admittance conversion")
    t = np.kron(np.eye(n), TO_SEQ)
    ti = np.linalg.inv(t)
    case.close(s, t @ y @ ti, "phase to sequence", 1e-10)
    case.close(p, ti @ y @ t, "sequence to phase", 1e-10)
    case.close(admittance_sequence_to_phase(s), y, "phase to sequence and back", 1e-10)
    case.close(admittance_phase_to_sequence(p), y, "sequence to phase and back", 1e-10)
    if kind == "balanced":
        for i in range(n):
            for j in range(n):
                sm = y[3*i:3*i+3, 3*j:3*j+3]
                want = np.diag([sm[0, 0] + 2 * sm[0, 1], sm[0, 0] - sm[0, 1], sm[0, 0] - sm[0, 1]])
                case.close(s[3*i:3*i+3, 3*j:3*j+3], want, "balanced lines are diagonal per node pair", 1e-9,
                           atol=1e-10 * np.max(np.abs(y)))
    # sequence admittances of lines
    y0, y1 = (rng.randn(2) + 1j * rng.randn(2)) * unit(rng)
    ph = dense(admittance_sequence_to_phase(np.diag([y0, y1, y1])))
    case.close(ph, (y0 - y1) / 3 * np.ones((3, 3)) + y1 * np.eye(3), "phase image of a line", 1e-10)


@monitor(REGISTRY, quick=640, thorough=8000)
def measurements(case):
    rng = case.rng
    n, t = size(rng), size(rng, 9, 400)
    v = gen.cplx(rng, (t, 3 * n)) * unit(rng)
    kind = gen.pick(rng, "any", "real", "one block")
    if kind == "real":
        v = v.real
    if kind == "one block":
        m = np.zeros_like(v)
        k = rng.randint(n)
        m[:, 3*k:3*k+3] = v[:, 3*k:3*k+3]
        v = m
    arg = form(rng, v)
    case.cover("n=%d T=%d %s %s" % (n, t, kind, type(arg).__name__))
    fr = Frozen(v=arg)
    s, p = dense(measurement_phase_to_sequence(arg)), dense(measurement_sequence_to_phase(arg))
    fr.verify(case, "measurement conversion")
    tr = np.kron(np.eye(n), TO_SEQ)
    case.close(s, (tr @ v.T).T, "phase to sequence", 1e-10)
    case.close(p, np.linalg.solve(tr, v.T.astype(complex)).T, "sequence to phase", 1e-9)
    case.close(measurement_sequence_to_phase(s), v, "phase to sequence and back", 1e-10)
    case.close(measurement_phase_to_sequence(p), v, "sequence to phase and back", 1e-10)
    # balanced sets appear in the positive sequence only, equal phasors in the zero sequence only
    z = gen.cplx(rng, (t, n), "gauss")
    for q, basis in ((1, POS), (0, np.ones(3)), (2, np.conj(POS))):
        got = dense(measurement_phase_to_sequence(np.kron(z, basis)))
        want = np.zeros((t, 3 * n), dtype=complex)
        want[:, q::3] = z
        case.close(got, want, "set of sequence %d" % q, 1e-10)


@monitor(REGISTRY, quick=640, thorough=8000)
def ohms_law(case):
    rng = case.rng
    n, t = size(rng), size(rng, 9, 400)
    y, kind, _ = admittance(rng, n)
    v = gen.cplx(rng, (t, 3 * n), "gauss") * unit(rng)
    y = y * unit(rng)
    case.cover("n=%d T=%d %s" % (n, t, kind))
    i = v @ y.T
    ys, vs, is_ = (dense(f(a)) for f, a in ((admittance_phase_to_sequence, y), (measurement_phase_to_sequence, v),
                                            (measurement_phase_to_sequence, i)))
    scale = np.max(np.abs(i)) or 1
    case.close(vs @ ys.T, is_, "Ohm's law in sequence values", 1e-9, atol=1e-10 * scale)
    if kind == "balanced":
        case.close(vs @ ys, is_, "Ohm's law in sequence values, rows", 1e-9, atol=1e-10 * scale)
    # and the other way round
    yp, vp, ip = (dense(f(a)) for f, a in ((admittance_sequence_to_phase, y), (measurement_sequence_to_phase, v),
                                           (measurement_sequence_to_phase, i)))
    case.close(vp @ yp.T, ip, "Ohm's law in phase values", 1e-9, atol=1e-10 * np.max(np.abs(ip)))
    # a violated law stays violated
    bad = i + scale * np.eye(t, 3 * n)
    bs = dense(measurement_phase_to_sequence(bad))
    case.check(np.max(np.abs(vs @ ys.T - bs)) > .1 * scale, "a violation is kept")
