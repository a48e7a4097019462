"""C22: the accelerated helpers against the processor ones (numpy-backed stand-in for the GPU library)."""
import numpy as np
from scipy import sparse as sp
from vf import gen, shim
from vf.core import monitor, Frozen, dense

shim.install()
from src.models import matrix_operations as mo
from src.models import gpu_matrix_operations as go

REGISTRY = []


def agree(case, name, *args):
    fr = Frozen(**{"arg%d" % i: a for i, a in enumerate(args)})
    want = getattr(mo, name)(*args)
    got = getattr(go, name)(*args)
    fr.verify(case, name)
    case.check(sp.issparse(got) == sp.issparse(want), name + " storage", type(got), type(want))
    if sp.issparse(want):
        case.check(got.format == want.format, name + " sparse format", got.format, want.format)
    case.check(got.dtype == want.dtype, name + " numeric type", got.dtype, want.dtype)
    case.same(got, want, name)
    case.event(name)


@monitor(REGISTRY, quick=300, thorough=3000)
def vectors(case):
    rng = case.rng
    s = gen.pick(rng, (1, 1), (1, rng.randint(1, 9)), (rng.randint(1, 9), 1), (rng.randint(1, 12), rng.randint(1, 12)))
    m = gen.layout(rng, gen.matrix(rng, s))
    case.cover("%s %s f=%s" % (s, m.dtype, m.flags["F_CONTIGUOUS"]), m.size > 1)
    agree(case, "vectorize_matrix", m)
    v = np.array(gen.matrix(rng, (s[0] * s[1], 1)))[:, 0]
    agree(case, "unvectorize_matrix", v, s)
    agree(case, "make_real_vector", v)
    w = np.array(gen.matrix(rng, (2 * s[0] * s[1], 1), gen.pick(rng, "f64", "f32", "int")))[:, 0]
    agree(case, "make_complex_vector", w)
    if rng.rand() < .3:
        # a column of a matrix
        agree(case, "make_complex_vector", w[:, None])


@monitor(REGISTRY, quick=400, thorough=4000)
def matrices(case):
    rng = case.rng
    s = gen.pick(rng, (1, 1), (1, rng.randint(1, 9)), (rng.randint(1, 9), 1), (rng.randint(1, 12), rng.randint(1, 12)))
    a = gen.matrix(rng, s, gen.pick(rng, "c128", "c128", "c64", "f64"))
    kind = gen.pick(rng, "dense", "csr", "csc", "coo")
    m = gen.layout(rng, a) if kind == "dense" else gen.sparse_as(rng, a * (rng.rand(*s) < .6), kind)
    case.cover("%s %s %s" % (s, a.dtype, kind), a.size > 1)
    agree(case, "make_real_matrix", m)
    r = gen.matrix(rng, (2 * s[0], 2 * s[1]), gen.pick(rng, "f64", "f32", "int"))
    kind = gen.pick(rng, "dense", "csr", "csc")
    agree(case, "make_complex_matrix", gen.layout(rng, r) if kind == "dense" else gen.sparse_as(rng, r, kind))
