"""Processor-backed stand-in for the GPU libraries, so that the accelerated module can be executed and observed."""
import sys
import types

import numpy as np
import scipy.sparse as sps


def install():
    cp = types.ModuleType("cupy")
    for k in dir(np):
        if not k.startswith("__"):
            setattr(cp, k, getattr(np, k))
    cpx = types.ModuleType("cupyx")
    scipy_ = types.ModuleType("cupyx.scipy")
    sparse_ = types.ModuleType("cupyx.scipy.sparse")
    for k in dir(sps):
        if not k.startswith("__"):
            setattr(sparse_, k, getattr(sps, k))
    cpx.scipy, scipy_.sparse = scipy_, sparse_
    sys.modules.update({"cupy": cp, "cupyx": cpx, "cupyx.scipy": scipy_, "cupyx.scipy.sparse": sparse_})
