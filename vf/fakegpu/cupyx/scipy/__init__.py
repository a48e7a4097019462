from . import sparse
