"""Reference computations: short, slow and independent of the code under test."""
import itertools

import numpy as np

from core import fail, close


def eigen_ok(e, W, C, what, rtol=1e-9):
    """Oracle: (e, W) is the eigendecomposition of C in the documented form."""
    m = C.shape[0]
    fail(e.shape != (m, 1), "{}: eigenvalues have shape {}", what, e.shape)
    fail(W.shape != (m, m), "{}: eigenvectors have shape {}", what, W.shape)
    fail(not (np.all(np.isfinite(e)) and np.all(np.isfinite(W))), "{}: not finite: {} {}", what, e, W)
    fail(np.any(e < 0), "{}: negative eigenvalue {}", what, e)
    fail(np.any(np.diff(e[:, 0]) > 0), "{}: eigenvalues not in nonincreasing order {}", what, e)
    fail(np.any(W[0] < 0), "{}: first component of an eigenvector is negative {}", what, W[0])
    close(np.dot(W.T, W), np.eye(m), 1e-9, what=what + ": eigenvectors orthogonal")
    sc = max(np.max(np.abs(C)), 1e-300)
    close(np.dot(W * e[:, 0], W.T) / sc, C / sc, rtol, what=what + ": W diag(e) W'")


def outer_mean(G, w):
    C = np.zeros((G.shape[1], G.shape[1]))
    for i in range(G.shape[0]):
        for a in range(G.shape[1]):
            for b in range(G.shape[1]):
                C[a, b] += float(w[i]) * G[i, a] * G[i, b]
    return C


def outer_mean_fast(G, w):
    """outer_mean for many samples, in extended precision."""
    G = np.asarray(G, dtype=np.longdouble)
    return np.array((G * np.asarray(w, dtype=np.longdouble).reshape(-1, 1)).T.dot(G), dtype=float)


def lsq(A, b, w=None):
    """Weighted least squares by Householder QR in extended precision; A must have full column rank."""
    A = np.array(A, dtype=np.longdouble)
    b = np.array(b, dtype=np.longdouble).reshape(A.shape[0])
    if w is not None:
        s = np.sqrt(np.array(w, dtype=np.longdouble).reshape(-1))
        A = A * s[:, None]
        b = b * s
    n = A.shape[1]
    sc = np.sqrt(np.sum(A * A, axis=0))
    sc[sc == 0] = 1
    A = A / sc
    for k in range(n):
        x = A[k:, k].copy()
        a = np.sqrt(np.sum(x * x))
        if a == 0:
            raise np.linalg.LinAlgError("rank")
        if x[0] > 0:
            a = -a
        v = x.copy()
        v[0] -= a
        vv = np.sum(v * v)
        if vv > 0:
            A[k:] -= np.outer(v, 2 * np.dot(v, A[k:]) / vv)
            b[k:] -= v * (2 * np.dot(v, b[k:]) / vv)
    x = np.zeros(n, dtype=np.longdouble)
    for k in range(n - 1, -1, -1):
        if abs(A[k, k]) < 1e-13:
            raise np.linalg.LinAlgError("rank")
        x[k] = (b[k] - np.dot(A[k, k + 1:], x[k + 1:])) / A[k, k]
    return np.array(x / sc, dtype=float)


def multi_indices(m, N):
    """All exponents of total degree at most N."""
    if m == 0:
        return [()]
    return [(k,) + r for k in range(N + 1) for r in multi_indices(m - 1, N - k)]


def monomials(X, idx):
    X = np.asarray(X, float)
    out = np.ones((X.shape[0], len(idx)))
    for k, a in enumerate(idx):
        for j, p in enumerate(a):
            for _ in range(int(p)):
                out[:, k] = out[:, k] * X[:, j]
    return out


def monomial_gradient(X, a):
    """Gradient of one monomial at every row of X."""
    X = np.asarray(X, float)
    out = np.zeros(X.shape)
    for j in range(X.shape[1]):
        if a[j] == 0:
            continue
        b = list(a)
        b[j] -= 1
        out[:, j] = a[j] * monomials(X, [b])[:, 0]
    return out


def null_vector(A):
    """Unit vector orthogonal to the n-1 independent rows of A."""
    return np.linalg.svd(np.vstack((A, np.zeros((1, A.shape[1])))))[2][-1]


class Zonotope:
    """Image of [-1,1]^m under y = W' x, by enumeration of the hyperplanes spanned by rows of W."""

    def __init__(self, W):
        self.W = W = np.asarray(W, float)
        self.m, self.n = m, n = W.shape
        normals, signs = [], set()
        if n == 1:
            normals = [np.ones(1)]
            s = tuple(np.where(W[:, 0] < 0, -1, 1).astype(int))
            signs = {s, tuple(-v for v in s)}
        else:
            for S in itertools.combinations(range(m), n - 1):
                d = null_vector(W[list(S)])
                normals.append(d)
                p = W.dot(d)
                for sg in (1, -1):
                    base = np.where(sg * p > 0, 1, -1)
                    for c in itertools.product((-1, 1), repeat=n - 1):
                        base[list(S)] = c
                        signs.add(tuple(int(v) for v in base))
        self.signs = signs
        self.normals = np.array(normals)
        self.h = np.sum(np.abs(self.normals.dot(W.T)), axis=1)

    def slack(self, Y):
        """Nonnegative exactly for points of the zonotope."""
        return np.min(self.h - np.abs(np.atleast_2d(Y).dot(self.normals.T)), axis=1)

    def vertices(self):
        return np.array(sorted(self.signs), float).dot(self.W)
