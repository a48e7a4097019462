"""C01: vectorisation and real/complex embeddings."""
import numpy as np
from scipy import sparse as sp
from src.models import matrix_operations as mo
from vf.core import monitor, Frozen, dense
from vf import gen

REGISTRY = []


def shape(rng):
    return gen.pick(rng, (1, 1), (1, rng.randint(1, 9)), (rng.randint(1, 9), 1), (rng.randint(1, 12), rng.randint(1, 12)),
                    (rng.randint(2, 6),) * 2, (0, rng.randint(0, 4)), (rng.randint(1, 4), 0))


@monitor(REGISTRY, quick=180, thorough=2500)
def stacking(case):
    rng = case.rng
    s = shape(rng)
    m = gen.layout(rng, gen.matrix(rng, s))
    if rng.rand() < .25:
        m = np.matrix(m)
    case.cover("%s %s %s f=%s" % (s, m.dtype, type(m).__name__, m.flags["F_CONTIGUOUS"]), m.size > 1)
    fr = Frozen(m=m)
    v = mo.vectorize_matrix(m)
    want = np.array([m[i, j] for j in range(s[1]) for i in range(s[0])], dtype=m.dtype)
    case.same(v, want, "column stacking of the matrix")
    case.check(isinstance(v, np.ndarray) and not isinstance(v, np.matrix) and v.ndim == 1, "stacking is one flat vector", v)
    case.check(v.dtype == m.dtype, "stacking keeps the numeric type", v.dtype)
    back = mo.unvectorize_matrix(v, s)
    case.same(back, m, "unstacking the stacked matrix")
    fr.verify(case, "vectorize_matrix")
    if v.size:
        v[0] = v[0] + 1 if m.dtype != bool else ~v[0]
        fr.verify(case, "writing into the stacked vector")
    u = np.array(gen.matrix(rng, (s[0] * s[1], 1)))[:, 0]
    case.same(mo.vectorize_matrix(mo.unvectorize_matrix(u, s)), u, "stacking an unstacked vector")
    if s[0] * s[1]:
        w = mo.unvectorize_matrix(u, (s[1], s[0]))
        case.check(w.shape == (s[1], s[0]), "unstacking into another shape", w.shape)
        case.same(w[:, -1], u[-s[1]:], "last column holds the last entries")


@monitor(REGISTRY, quick=120, thorough=1500)
def kronecker_law(case):
    rng = case.rng
    p, q, r, s = rng.randint(1, 6, 4)
    a, x, b = gen.cplx(rng, (p, q), "gauss"), gen.cplx(rng, (q, r), "gauss"), gen.cplx(rng, (r, s), "gauss")
    case.cover("A%dx%d X%dx%d B%dx%d" % (p, q, q, r, r, s), p * q * r * s > 1)
    case.close(mo.vectorize_matrix(a @ x @ b), np.kron(b.T, a) @ mo.vectorize_matrix(x), "vec(AXB) = (B^T kron A) vec(X)")
    case.close(mo.unvectorize_matrix(np.kron(b.T, a) @ mo.vectorize_matrix(x), (p, s)), a @ x @ b, "inverse of the law")


@monitor(REGISTRY, quick=180, thorough=2500)
def real_vectors(case):
    rng = case.rng
    n = rng.randint(0, 20)
    v = np.array(gen.matrix(rng, (n, 1)))[:, 0]
    case.cover("%d %s" % (n, v.dtype), n > 0)
    fr = Frozen(v=v)
    r = mo.make_real_vector(v)
    case.check(r.shape == (2 * n,) and not np.iscomplexobj(r), "stacked real vector", r)
    case.same(r[:n], np.real(v), "first half is the real part")
    case.same(r[n:], np.imag(v), "second half is the imaginary part")
    c = mo.make_complex_vector(r)
    case.same(c, v, "complex vector rebuilt from its real form")
    a, b = gen.cplx(rng, (n,), "gauss"), gen.cplx(rng, (n,), "gauss")
    case.close(mo.make_real_vector(a + b), mo.make_real_vector(a) + mo.make_real_vector(b), "sums are preserved")
    case.close(mo.make_real_vector(a) @ mo.make_real_vector(b), np.real(np.vdot(a, b)) if n else 0., "inner product")
    fr.verify(case, "make_real_vector")
    w = rng.randn(2 * n)
    fr = Frozen(w=w)
    case.same(mo.make_real_vector(mo.make_complex_vector(w)), w, "real vector rebuilt from its complex form")
    fr.verify(case, "make_complex_vector")


def store(rng, a):
    k = gen.pick(rng, "dense", "dense", "csr", "csc", "coo", "matrix")
    if k == "dense":
        a = gen.layout(rng, a)
        if rng.rand() < .3:
            a.flags.writeable = False
        return a, k
    if k == "matrix":
        return np.matrix(a), k
    m = gen.sparse_as(rng, a, k)
    if k == "coo" and m.nnz and rng.rand() < .4:  # entries stored in several parts, in any order
        order = rng.permutation(2 * m.nnz)
        part = m.data / 4 if m.data.dtype.kind in "fc" else m.data * 0
        m = sp.coo_matrix((np.hstack((m.data - part, part))[order],
                           (np.hstack((m.row, m.row))[order], np.hstack((m.col, m.col))[order])), shape=m.shape)
        if np.any(m.toarray() != a):
            m = gen.sparse_as(rng, a, k)
    elif m.nnz and k != "coo" and rng.rand() < .3:  # stored zeros
        m = m.copy()
        m.data[rng.randint(m.nnz)] = 0
    return m, k


def same_kind(case, got, src, kind, what):
    if kind in ("csr", "csc", "coo"):
        case.check(sp.issparse(got) and got.format == kind, "%s keeps the sparse format %s" % (what, kind), type(got))
    else:
        case.check(not sp.issparse(got), "%s of a dense matrix is dense" % what, type(got))


@monitor(REGISTRY, quick=450, thorough=6000)
def real_matrices(case):
    rng = case.rng
    s = gen.pick(rng, (1, 1), (1, rng.randint(1, 7)), (rng.randint(1, 7), 1), (rng.randint(1, 8), rng.randint(1, 8)))
    a = gen.matrix(rng, s, gen.pick(rng, "c128", "c128", "c64", "f64", "f32", "int"))
    if rng.rand() < .3:
        a = a * (rng.rand(*s) < .4).astype(int)
    m, kind = store(rng, a)
    a = dense(m)
    case.cover("%s %s %s nnz=%d" % (s, a.dtype, kind, np.count_nonzero(a)), np.count_nonzero(a) > 0)
    fr = Frozen(m=m)
    r = mo.make_real_matrix(m)
    same_kind(case, r, m, kind, "real form")
    want = np.vstack((np.hstack((a.real, -a.imag)), np.hstack((a.imag, a.real))))
    case.same(r, want, "real block form")
    case.check(dense(r).dtype.kind != "c", "real form is real", dense(r).dtype)
    fr.verify(case, "make_real_matrix")
    # algebra
    b = gen.cplx(rng, s, "gauss")
    c = gen.cplx(rng, (s[1], rng.randint(1, 6)), "gauss")
    ac = np.array(a, dtype=complex)
    ra = dense(mo.make_real_matrix(gen.sparse_as(rng, ac) if rng.rand() < .5 else ac))
    rb = dense(mo.make_real_matrix(b))
    rc = dense(mo.make_real_matrix(gen.sparse_as(rng, c) if rng.rand() < .5 else c))
    case.close(mo.make_real_matrix(ac + b), ra + rb, "sums are preserved", rtol=1e-8)
    case.close(dense(mo.make_real_matrix(ac @ c)), ra @ rc, "products are preserved", rtol=1e-8)
    case.close(mo.make_real_matrix(ac.conj().T), ra.T, "conjugate transpose becomes transpose")
    x = gen.cplx(rng, (s[1],), "gauss")
    case.close(mo.make_real_vector(ac @ x), ra @ mo.make_real_vector(x), "matrix vector products", rtol=1e-8)
    # back
    back = mo.make_complex_matrix(r.tocsr() if kind == "coo" else r)
    case.same(back, np.array(a), "complex matrix rebuilt from its real form")
    if kind in ("csr", "csc"):
        case.check(sp.issparse(back) and back.format == kind, "rebuilding keeps the sparse format", type(back))


@monitor(REGISTRY, quick=24, thorough=120)
def real_size(case):
    """Hundreds of rows and columns, as the estimators use the helpers."""
    rng = case.rng
    s = (rng.randint(40, 400), rng.randint(20, 130))
    s = s if rng.rand() < .6 else s[::-1]
    a = gen.cplx(rng, s, "gauss")
    case.cover("%dx%d" % s, True)
    v = mo.vectorize_matrix(a)
    case.same(v, a.T.reshape(-1), "column stacking of the matrix")
    case.same(mo.unvectorize_matrix(v, s), a, "unstacking the stacked matrix")
    r = mo.make_real_vector(v)
    case.same(r, np.concatenate((v.real, v.imag)), "stacked real vector")
    case.same(mo.make_complex_vector(r), v, "complex vector rebuilt from its real form")
    want = np.vstack((np.hstack((a.real, -a.imag)), np.hstack((a.imag, a.real))))
    case.same(mo.make_real_matrix(a), want, "real block form")
    case.same(mo.make_complex_matrix(want), a, "complex matrix rebuilt from its real form")
    # very sparse ones, as the noise covariances and the Kronecker regressors
    n, nnz = rng.randint(500, 6000, 2), rng.randint(1, 5000)
    row, col = rng.randint(n[0], size=nnz), rng.randint(n[1], size=nnz)
    val = gen.cplx(rng, (nnz,), "gauss")
    for kind in ("csr", "csc", "coo"):
        m = sp.coo_matrix((val, (row, col)), shape=n).asformat(kind)
        big = mo.make_real_matrix(m)
        case.check(sp.issparse(big) and big.format == kind, "real form keeps the sparse format " + kind, type(big))
        case.check(big.shape == (2 * n[0], 2 * n[1]), "real form has twice the size", big.shape)
        x = gen.cplx(rng, (n[1],), "gauss")
        case.close(big @ np.hstack((x.real, x.imag)), np.hstack(((m @ x).real, (m @ x).imag)), "product of the real form")
        y = gen.cplx(rng, (n[0],), "gauss")
        z = m.conj().T @ y
        case.close(big.T @ np.hstack((y.real, y.imag)), np.hstack((z.real, z.imag)), "product of its transpose")
        if kind != "coo":
            back = mo.make_complex_matrix(big)
            case.check(sp.issparse(back) and back.format == kind, "rebuilding keeps the sparse format", type(back))
            gap = abs(back - m.asformat(kind))
            case.check(back.shape == m.shape and (gap.nnz == 0 or gap.max() <= 1e-12), "sparse matrix rebuilt", gap.nnz)


@monitor(REGISTRY, quick=60, thorough=800)
def dynamic_range(case):
    """Entries of very different sizes in one matrix (admittances next to inverse variances)."""
    rng = case.rng
    s = rng.randint(1, 9), rng.randint(1, 9)
    w = gen.pick(rng, 6, 12, 40, 140)
    a = rng.randn(*s) * 10. ** rng.uniform(-w, w, s)
    if rng.rand() < .8:
        a = a + 1j * rng.randn(*s) * 10. ** rng.uniform(-w, w, s)
    m, kind = store(rng, a)
    a = dense(m)
    case.cover("%s %s %s 1e%d" % (s, a.dtype, kind, w))
    fr = Frozen(m=m)
    r = mo.make_real_matrix(m)
    same_kind(case, r, m, kind, "real form")
    case.same(r, np.vstack((np.hstack((a.real, -a.imag)), np.hstack((a.imag, a.real)))), "real block form, entry by entry")
    case.same(mo.make_complex_matrix(r.tocsr() if kind == "coo" else r), np.array(a), "complex matrix rebuilt from its real form")
    v = mo.vectorize_matrix(np.array(a))
    case.same(mo.make_complex_vector(mo.make_real_vector(v)), v, "vector rebuilt from its real form")
    case.same(mo.unvectorize_matrix(v, s), a, "matrix rebuilt from its vector")
    fr.verify(case, "real and complex forms")
