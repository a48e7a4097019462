"""Stand-in for cupyx.scipy.sparse over scipy.sparse."""
import types

import numpy as np
import scipy.sparse as _sp
import scipy.sparse.linalg as _la

import cupy
from cupy import _up


class _Mixin:
    _on_device = True

    def get(self, *args):
        return getattr(_sp, type(self).__name__)(self)


def _wrap(r):
    if _sp.issparse(r):
        if isinstance(r, _Mixin):
            return r
        c = _kinds.get(r.format)
        return c(r) if c else _kinds["csr"](r.tocsr())
    return _up(r)


def _method(name, base):
    inner = getattr(base, name)

    def call(self, *args, **kwargs):
        r = inner(self, *[np.asarray(a) if isinstance(a, np.ndarray) else a for a in args], **kwargs)
        return r if r is NotImplemented else _wrap(r)
    call.__name__ = name
    return call


_NAMES = ["__matmul__", "__rmatmul__", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
          "__neg__", "__getitem__", "transpose", "dot", "multiply", "power", "tocsr", "tocsc", "tocoo", "conj", "conjugate",
          "copy", "astype", "toarray", "todense", "diagonal", "sum", "asformat", "max", "min", "mean", "__pow__", "__abs__",
          "getH", "reshape", "sqrt"]


def _make(name):
    base = getattr(_sp, name)

    def init(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, np.ndarray):
            arg = np.asarray(arg)
        elif isinstance(arg, tuple):
            arg = tuple(np.asarray(a) if isinstance(a, np.ndarray) else
                        tuple(np.asarray(b) if isinstance(b, np.ndarray) else b for b in a) if isinstance(a, tuple) else a
                        for a in arg)
        base.__init__(self, arg, shape=shape, dtype=dtype, copy=copy)

    body = {"__init__": init, "__array_priority__": 101.}
    for k in _NAMES:
        if hasattr(base, k):
            body[k] = _method(k, base)
    body["T"] = property(lambda self: self.transpose())
    body["real"] = property(lambda self: _wrap(base._real(self)))
    body["imag"] = property(lambda self: _wrap(base._imag(self)))
    body["__module__"] = __name__
    return type(name, (_Mixin, base), body)


csr_matrix, csc_matrix, coo_matrix, dia_matrix = (_make(k) for k in ("csr_matrix", "csc_matrix", "coo_matrix", "dia_matrix"))
_kinds = {"csr": csr_matrix, "csc": csc_matrix, "coo": coo_matrix, "dia": dia_matrix}
spmatrix = _sp.spmatrix


def _lift(f):
    def host(a):
        if isinstance(a, np.ndarray):
            return np.asarray(a)
        if isinstance(a, (list, tuple)):
            return type(a)(host(x) for x in a)
        return a

    def call(*args, **kwargs):
        return _wrap(f(*[host(a) for a in args], **{k: host(v) for k, v in kwargs.items()}))
    return call


for _k in ("kron", "eye", "identity", "diags", "bmat", "hstack", "vstack", "tril", "triu", "random", "find", "kronsum", "spdiags"):
    globals()[_k] = _lift(getattr(_sp, _k))
issparse = isspmatrix = _sp.issparse
isspmatrix_csr = lambda m: m.format == "csr" if issparse(m) else False
isspmatrix_csc = lambda m: m.format == "csc" if issparse(m) else False
isspmatrix_coo = lambda m: m.format == "coo" if issparse(m) else False

from . import linalg
