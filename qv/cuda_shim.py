"""Stand-ins for cupy and cupyx.scipy.sparse made of numpy and scipy, so that the Python
code of the CUDA backends runs without a GPU.  The part that matters here is cupy's
calling convention: device arrays are a type of their own, host arrays are refused until
converted with cupy.array."""
import sys
import types

import numpy as np
import scipy.sparse as sp


class ndarray(np.ndarray):
    """A device array."""


def _dev(a):
    return np.asarray(a).view(ndarray)


def _host_check(*args):
    for a in args:
        if isinstance(a, np.ndarray) and not isinstance(a, ndarray):
            raise TypeError("Unsupported type %s" % type(a))


def install():
    if "cupy" in sys.modules:
        return
    cp = types.ModuleType("cupy")
    cp.ndarray = ndarray
    cp.array = cp.asarray = lambda a, *k, **kw: _dev(a)

    def kron(a, b):
        _host_check(a, b)
        return _dev(np.kron(a, b))

    def dot(a, b):
        _host_check(a, b)
        return _dev(np.dot(a, b))

    cp.kron, cp.dot = kron, dot
    cp.eye = lambda N, M=None, k=0, dtype=float: _dev(np.eye(N, M, k, dtype))
    cp.allclose = lambda a, b, **kw: np.allclose(a, b, **kw)
    cp.asnumpy = lambda a: np.asarray(a)

    def fallback(name):
        thing = getattr(np, name)
        if isinstance(thing, np.ufunc) or not callable(thing) or isinstance(thing, type):
            return thing

        def call(*args, **kw):
            got = thing(*args, **kw)
            return _dev(got) if isinstance(got, np.ndarray) else got

        return call

    cp.__getattr__ = fallback

    cupyx = types.ModuleType("cupyx")
    cscipy = types.ModuleType("cupyx.scipy")
    csparse = types.ModuleType("cupyx.scipy.sparse")
    csparse.csr_matrix = sp.csr_matrix
    csparse.csc_matrix = sp.csc_matrix
    csparse.coo_matrix = sp.coo_matrix
    csparse.kron = sp.kron
    csparse.eye = lambda m, n=None, k=0, dtype="d", format=None: sp.eye(m, n, k, dtype, format)
    csparse.__getattr__ = lambda name: getattr(sp, name)
    cupyx.scipy, cscipy.sparse = cscipy, csparse
    sys.modules.update({"cupy": cp, "cupyx": cupyx, "cupyx.scipy": cscipy, "cupyx.scipy.sparse": csparse})
