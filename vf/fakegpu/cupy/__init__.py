"""Processor-backed stand-in for cupy: device arrays are a numpy subclass which only get() brings back."""
import types

import numpy as _np
from numpy import *  # dtypes and constants


class ndarray(_np.ndarray):
    __array_priority__ = 5

    def get(self, *args, **kwargs):
        return _np.array(self, subok=False)

    def __array_wrap__(self, out, context=None):
        return _np.asarray(out).view(ndarray)  # zero-dimensional results stay on the device

    def dot(self, other, out=None):
        if hasattr(other, "tocsr"):
            return other.__rmatmul__(self)
        return _up(_np.dot(_np.asarray(self), _np.asarray(other)))

    def __matmul__(self, other):
        if hasattr(other, "tocsr"):
            return NotImplemented
        return _up(_np.asarray(self) @ _np.asarray(other))

    def __getitem__(self, k):
        return _up(_np.ndarray.__getitem__(self, k))


def _up(r):
    if isinstance(r, ndarray):
        return r
    if isinstance(r, (_np.ndarray, _np.generic)):
        return _np.asarray(r).view(ndarray)
    if isinstance(r, tuple) and not hasattr(r, "_fields"):
        return tuple(_up(x) for x in r)
    if isinstance(r, list):
        return [_up(x) for x in r]
    return r


def _host(a):
    if isinstance(a, ndarray):
        return _np.asarray(a)
    if isinstance(a, (list, tuple)):
        return type(a)(_host(x) for x in a)
    return a


def _lift(f):
    def call(*args, **kwargs):
        return _up(f(*[_host(a) for a in args], **{k: _host(v) for k, v in kwargs.items()}))
    call.__name__ = getattr(f, "__name__", "call")
    return call


def _fill(to, module):
    for k in dir(module):
        v = getattr(module, k)
        if k.startswith("_") or isinstance(v, types.ModuleType):
            continue
        to[k] = _lift(v) if callable(v) and not isinstance(v, type) else v


_keep = ndarray
_fill(globals(), _np)
ndarray = _keep
linalg = types.ModuleType("cupy.linalg")
_fill(linalg.__dict__, _np.linalg)
random = types.ModuleType("cupy.random")
_fill(random.__dict__, _np.random)


def asnumpy(a, *args, **kwargs):
    return a.get() if hasattr(a, "get") else _np.asarray(a)


def get_array_module(*args):
    import sys
    return sys.modules[__name__] if any(isinstance(a, ndarray) or hasattr(a, "_on_device") for a in args) else _np


class _Pool:
    def free_all_blocks(self, *args):
        pass

    def used_bytes(self):
        return 0

    total_bytes = used_bytes


_default_memory_pool = _Pool()
_default_pinned_memory_pool = _Pool()


def get_default_memory_pool():
    return _default_memory_pool


def get_default_pinned_memory_pool():
    return _default_pinned_memory_pool


class _Device:
    def __init__(self, k=0):
        self.id = k

    def use(self):
        pass

    def synchronize(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


cuda = types.ModuleType("cupy.cuda")
cuda.Device = _Device
cuda.is_available = lambda: True
