"""The code under test, imported from /repo's working tree (after the controlled generator is in place)."""
import contextlib

import core  # noqa: F401
import numpy as np
import scipy.optimize

_real_minimize = scipy.optimize.minimize
_solver = [None]


def _minimize(*a, **k):
    """scipy.optimize.minimize, watched or replaced by a model while local_solver() is in force."""
    if _solver[0] is None:
        return _real_minimize(*a, **k)
    return _solver[0](_real_minimize, *a, **k)


scipy.optimize.minimize = _minimize      # before the package is imported
import active_subspaces as ac  # noqa: F401
from active_subspaces import (subspaces, gradients, domains, integrals, optimizers,  # noqa: F401
                              response_surfaces)
from active_subspaces.utils import (misc, quadrature, designs, simrunners, plotters, qp_solver)  # noqa: F401
from active_subspaces.utils import response_surfaces as rs  # noqa: F401


def seeded(fn, seed=20):
    """fn() from a fixed state of the real generator."""
    np.random.seed(seed)
    return fn()


def make_subspaces(W, e=None, n=1):
    """A Subspaces object whose eigenvectors are (up to sign) the orthogonal W, through the public interface."""
    W = np.asarray(W, float)
    m = W.shape[0]
    if e is None:
        e = 4.0 ** -np.arange(m)
    s = subspaces.Subspaces()
    s.compute(df=(np.sqrt(np.asarray(e) * m) * W).T.copy())
    s.partition(n)
    return s


@contextlib.contextmanager
def local_solver(model):
    """model(real, fun, x0, ...) answers instead of scipy.optimize.minimize."""
    _solver[0] = model
    try:
        yield
    finally:
        _solver[0] = None


def snapshot(o, depth=0):
    """Comparable copy of an object's state."""
    if isinstance(o, np.ndarray):
        return ("a", o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, (int, float, str, bool, bytes, type(None), np.generic)):
        return o if o == o else "nan"
    if isinstance(o, (list, tuple)):
        return tuple(snapshot(v, depth + 1) for v in o)
    if isinstance(o, dict):
        return tuple(sorted((str(k), snapshot(v, depth + 1)) for k, v in o.items()))
    if callable(o) or depth > 6:
        return "callable"
    if hasattr(o, "__dict__"):
        return (type(o).__name__,) + snapshot(vars(o), depth + 1)
    return type(o).__name__
