"""C02: symmetric and Laplacian compressions, re-insertion."""
import numpy as np
from src.models import matrix_operations as mo
from vf.core import monitor, Frozen
from vf import gen

REGISTRY = []


def vech(m):
    n = m.shape[0]
    return np.array([m[i, j] for j in range(n) for i in range(j, n)])


def ve(m):
    n = m.shape[0]
    return np.array([-m[i, j] for j in range(n) for i in range(j + 1, n)])


def size(case):
    # every size 1..12 first, then larger ones
    return case.index + 1 if case.index < 12 else int(case.rng.randint(3, 22) if case.index % 4 else case.rng.randint(28, 48))


@monitor(REGISTRY, quick=60, thorough=120)
def symmetric(case):
    rng, n = case.rng, size(case)
    case.cover("n=%d" % n, n > 1)
    d, e = mo.duplication_matrix(n), mo.elimination_sym_matrix(n)
    case.check(d.shape == (n * n, n * (n + 1) // 2) and e.shape == (n * (n + 1) // 2, n * n), "shapes", d.shape, e.shape)
    m = gen.cplx(rng, (n, n), "gauss")
    s = (m + m.T) / 2
    case.close(e @ mo.vectorize_matrix(s), vech(s), "compression is the column-ordered lower triangle")
    case.same(d @ vech(s), mo.vectorize_matrix(s), "expansion rebuilds the symmetric matrix")
    case.close(e @ mo.vectorize_matrix(m), vech(s), "non symmetric matrix is averaged")
    case.close(mo.unvectorize_matrix(d @ (e @ mo.vectorize_matrix(m)), (n, n)), s, "symmetric part")
    p = gen.cplx(rng, (n * (n + 1) // 2,), "gauss")
    case.close(e @ (d @ p), p, "compressing expanded parameters")
    x = mo.unvectorize_matrix(d @ p, (n, n))
    case.same(x, x.T, "expansion is symmetric")


@monitor(REGISTRY, quick=60, thorough=120)
def laplacian(case):
    rng, n = case.rng, size(case)
    case.cover("n=%d" % n, n > 1)
    d, e = mo.duplication_matrix(n), mo.elimination_sym_matrix(n)
    t, el = mo.transformation_matrix(n), mo.elimination_lap_matrix(n)
    k = n * (n - 1) // 2
    case.check(t.shape == (n * (n + 1) // 2, k) and el.shape == (k, n * (n + 1) // 2), "shapes", t.shape, el.shape)
    y = gen.laplacian(rng, n, rng.uniform(.2, 1)) if rng.rand() < .5 else None
    if y is None:
        o = gen.cplx(rng, (n, n), "gauss")
        y = o + o.T
        np.fill_diagonal(y, 0)
        np.fill_diagonal(y, -y.sum(axis=1))
    q = el @ (e @ mo.vectorize_matrix(y))
    case.close(q, ve(y), "one parameter per pair: minus the off-diagonal entry, by columns")
    case.close(mo.unvectorize_matrix(d @ (t @ q), (n, n)), y, "expansion rebuilds the Laplacian matrix")
    p = gen.cplx(rng, (k,), "gauss")
    case.close(el @ (t @ p), p, "compressing expanded parameters")
    x = mo.unvectorize_matrix(d @ (t @ p), (n, n))
    case.same(x, x.T, "expansion is symmetric")
    case.close(x.sum(axis=1), np.zeros(n), "zero row sums", atol=1e-9)
    case.close(ve(x), p, "order of the parameters")
    if not k:
        return
    # each parameter is one line: +1 on both diagonals, -1 on both off-diagonals
    i = rng.randint(k)
    u = mo.unvectorize_matrix(d @ t[:, i], (n, n))
    case.check(np.sum(u == 1) == 2 and np.sum(u == -1) == 2 and np.count_nonzero(u) == 4, "one parameter is one line", u)


@monitor(REGISTRY, quick=240, thorough=3000)
def reinsertion(case):
    rng = case.rng
    axis = rng.randint(2)
    s = (rng.randint(1, 12), rng.randint(1, 12))
    if case.index % 10 == 9:  # real sizes
        s = tuple(gen.pick(rng, (rng.randint(40, 200), rng.randint(1, 200)), (rng.randint(1, 200), rng.randint(40, 200))))
    m = gen.matrix(rng, s, gen.pick(rng, "c128", "c128", "f64", "int", "c64", "f32"))
    k = rng.randint(0, s[axis] + 1)
    idx = rng.permutation(s[axis])[:k]
    order = gen.pick(rng, "random", "sorted", "reversed")
    idx = np.sort(idx) if order == "sorted" else np.sort(idx)[::-1] if order == "reversed" else idx
    kind = gen.pick(rng, "array", "list", "float")
    arg = list(idx) if kind == "list" else idx.astype(float) if kind == "float" else idx
    case.cover("%s axis=%d del=%s %s %s" % (s, axis, list(idx), kind, m.dtype), k > 0)
    cut = gen.layout(rng, np.delete(m, idx, axis=axis))
    if rng.rand() < .3:
        cut.flags.writeable = False
    fr = Frozen(cut=cut, arg=arg)
    got = mo.undelete(cut, arg, axis=axis) if axis or rng.rand() < .5 else mo.undelete(cut, arg)
    want = m.copy()
    if axis == 0:
        want[idx, :] = 0
    else:
        want[:, idx] = 0
    case.same(got, want, "re-inserting deleted lines")
    case.check(np.iscomplexobj(got) == np.iscomplexobj(m), "numeric type kind is kept", got.dtype)
    fr.verify(case, "undelete")
    case.same(np.delete(got, idx, axis=axis), cut, "deleting again")
