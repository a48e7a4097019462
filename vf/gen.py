"""Shared generators of hostile and realistic inputs."""
import numpy as np
from scipy import sparse as sp


def pick(rng, *options):
    return options[rng.randint(len(options))]


def real(rng, shape, style=None):
    """Real array of one of several characters: gaussian, integers, sparse, wide range, zeros."""
    style = style or pick(rng, "gauss", "gauss", "int", "holes", "range")
    a = rng.randn(*shape)
    if style == "int":
        a = np.round(3 * a)
    elif style == "holes":
        a = a * (rng.rand(*shape) < 0.5)
    elif style == "range":
        a = a * 10.0 ** rng.uniform(-6, 6, shape)
    elif style == "zero":
        a = a * 0
    return a


def cplx(rng, shape, style=None):
    return real(rng, shape, style) + 1j * real(rng, shape, style)


def matrix(rng, shape, kind=None):
    """Dense array of one of the numeric types."""
    kind = kind or pick(rng, "c128", "c128", "f64", "int", "c64", "f32", "bool")
    if kind == "c128":
        return cplx(rng, shape)
    if kind == "f64":
        return real(rng, shape)
    if kind == "int":
        return np.asarray(np.round(5 * rng.randn(*shape)), dtype=int)
    if kind == "c64":
        return cplx(rng, shape, "gauss").astype(np.complex64)
    if kind == "f32":
        return real(rng, shape, "gauss").astype(np.float32)
    return rng.rand(*shape) < 0.5


def laplacian(rng, n, density=1.0, complex_=True):
    """Symmetric Laplacian of a connected graph with strictly positive conductances."""
    y = np.zeros((n, n), dtype=complex if complex_ else float)
    order = rng.permutation(n)
    pairs = {tuple(sorted((order[i], order[rng.randint(i)]))) for i in range(1, n)}
    for i in range(n):
        for j in range(i):
            if rng.rand() < density - 1e-12 or (j, i) in pairs:
                g = rng.uniform(.5, 4)
                v = g - 1j * rng.uniform(.5, 8) if complex_ else g
                y[i, j] = y[j, i] = -v
    np.fill_diagonal(y, -y.sum(axis=1))
    return y


def unitary(rng, n):
    q, r = np.linalg.qr(rng.randn(n, n) + 1j * rng.randn(n, n))
    return q * (np.diag(r) / np.abs(np.diag(r)))


def layout(rng, a):
    """The same values in another memory layout."""
    k = rng.randint(4)
    if k == 0:
        return np.ascontiguousarray(a)
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a[::-1].copy()[::-1]


def sparse_as(rng, a, fmt=None):
    fmt = fmt or pick(rng, "csr", "csc", "coo")
    return {"csr": sp.csr_matrix, "csc": sp.csc_matrix, "coo": sp.coo_matrix}[fmt](a)


class Buffers:
    """Hands out arrays for a series of calls: sometimes the array of the call before, holding the new values."""
    def __init__(self, rng):
        self.rng, self.kept = rng, {}

    def __call__(self, name, a):
        b = self.kept.get(name)
        if b is not None and b.shape == a.shape and b.dtype == a.dtype and self.rng.rand() < .7:
            b[...] = a
            return b
        self.kept[name] = a = np.array(a)
        return a


def nearby(rng, a):
    """Other values that a careless comparison takes for the same: one entry, two rows exchanged, tiny or whole change."""
    a = a.copy()
    k = rng.randint(4)
    if k == 0:
        a[tuple(rng.randint(s) for s in a.shape)] *= 1.5
    elif k == 1 and len(a) > 1:
        i = rng.permutation(len(a))[:2]
        a[i] = a[i[::-1]]
    elif k == 2:
        a = a * (1 + 1e-4 * rng.rand(*a.shape))
    else:
        a = a + .3 * a[rng.permutation(len(a))]
    return a
