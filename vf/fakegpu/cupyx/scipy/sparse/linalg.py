import numpy as np
import scipy.sparse as _sp
import scipy.sparse.linalg as _la
from . import _lift


def _spsolve(a, b):
    return _la.spsolve(_sp.csc_matrix(a), b)


spsolve = _lift(_spsolve)
lsqr = _lift(_la.lsqr)
norm = _lift(_la.norm)
