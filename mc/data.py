"""Alphabets: deterministic arrays, one per shortcut a numeric routine could take."""
import itertools

import numpy as np


# sizes on both sides of the round numbers and powers of two at which a routine could change its method
BIGM = (60, 90, 97, 128, 150, 256, 257, 300, 400, 500, 512, 521, 750, 1000, 1001, 1024, 1031, 1500, 2000, 2053, 3000,
        4096, 4099, 5003, 8192, 10000, 10007)
BIGDIM = (10, 11, 16, 17, 20, 25, 32, 33, 50, 64, 100)
SCALES = (1e-150, 1e-30, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e12, 1e30, 1e150)


def weyl(M, m, phase=0.0):
    """Points without structure in (-1,1): a fixed integer hash of (row, column, phase)."""
    with np.errstate(over="ignore"):
        i = np.arange(M, dtype=np.uint64).reshape(M, 1)
        j = np.arange(m, dtype=np.uint64).reshape(1, m)
        x = (i * np.uint64(0x9E3779B97F4A7C15) + j * np.uint64(0xC2B2AE3D27D4EB4F)
             + np.uint64(int(round(phase * 1000)) % 2 ** 31) * np.uint64(0x165667B19E3779F9) + np.uint64(0x27D4EB2F165667C5))
        for c, s in ((0xBF58476D1CE4E5B9, 30), (0x94D049BB133111EB, 27), (0x9E3779B97F4A7C15, 31)):
            x = (x ^ (x >> np.uint64(s))) * np.uint64(c)
        x = x ^ (x >> np.uint64(29))
    return (x >> np.uint64(11)).astype(float) * (2.0 / 2 ** 53) - 1.0


def ortho(m, phase=0.0):
    """Orthogonal matrix without structure."""
    Q, R = np.linalg.qr(weyl(m, m, phase + 3.1) + 0.3 * np.eye(m))
    return Q * np.sign(np.diag(R))


def arrays(M, m):
    """Named M-by-m arrays covering the degenerate shapes of data."""
    w = weyl(M, m)
    i = np.arange(M * m).reshape(M, m)
    yield "generic", w
    yield "zeros", np.zeros((M, m))
    yield "ones", np.ones((M, m))
    yield "signs", np.where(i % 3 == 0, -1.0, 1.0)
    yield "integers", np.floor(3 * w)
    yield "ties", np.round(w)
    yield "same rows", np.tile(w[:1], (M, 1))
    z = w.copy(); z[:, -1] = 0
    yield "last column zero", z
    z = w.copy(); z[:, 0] = 0
    yield "first column zero", z
    z = w.copy(); z[0] = 0
    yield "first row zero", z
    z = w.copy(); z[-1] = 0
    yield "last row zero", z
    z = np.zeros((M, m)); z[-1, -1] = 2.0
    yield "one entry", z
    yield "rank one", np.outer(weyl(M, 1)[:, 0], weyl(1, m, 1.0)[0])
    yield "equal columns", np.tile(w[:, :1], (1, m))
    yield "orthogonal rows", np.eye(max(M, m))[:M, :m] * 1.0
    yield "large", 1e8 * w
    yield "small", 1e-8 * w
    yield "mixed scales", w * 10.0 ** (np.arange(m)[None, :] % 5 - 2.0)
    yield "positive", np.abs(w) + 0.1
    yield "negative", -np.abs(w) - 0.1


def weights(M):
    yield "uniform", np.ones((M, 1)) / M
    yield "ones", np.ones((M, 1))
    k = np.arange(M).reshape(M, 1)
    yield "increasing", (k + 1.0) / M
    yield "integers", (k % 3 + 1) * 1.0
    if M > 1:
        yield "with zeros", (k % 2) * 1.0
        yield "one sample", (k == M - 1) * 1.0
    yield "small", 1e-6 * (k + 1.0)


def relayouts(a):
    """The same values in other memory layouts."""
    a = np.asarray(a)
    yield "fortran", np.asfortranarray(a)
    if a.ndim == 2:
        big = np.zeros((2 * a.shape[0], 2 * a.shape[1]), dtype=a.dtype)
        v = big[::2, ::2]
        v[...] = a
        yield "strided", v
        b = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
        yield "negative strides", b
        c = np.zeros((a.shape[0], a.shape[1] + 2), dtype=a.dtype)
        c[:, 1:-1] = a
        yield "columns of a wider array", c[:, 1:-1]
    r = a.copy()
    r.flags.writeable = False
    yield "read-only", r


def words(alphabet, maxlen, minlen=0):
    for k in range(minlen, maxlen + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield w
