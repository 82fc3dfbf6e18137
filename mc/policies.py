"""Answers of the random generator at the level of whole draws: the explorer picks one pattern per draw."""
import itertools

import numpy as np
from scipy.special import ndtri

import data

ALMOST1 = 1.0 - 2.0 ** -53


def _rows(shape):
    d = shape[-1] if len(shape) > 1 else 1
    n = int(np.prod(shape)) // max(d, 1)
    return n, d


def u_grid(shape):
    n, d = _rows(shape)
    return (data.weyl(n, d, 9.0) * 0.999999 + 1.0) / 2


def u_const(c):
    return lambda shape: np.full(int(np.prod(shape)), c)


def u_corners(shape):
    n, d = _rows(shape)
    i = np.arange(n).reshape(n, 1)
    return np.where((i >> np.arange(d).reshape(1, d)) & 1, ALMOST1, 0.0)


def u_alternate(shape):
    n, d = _rows(shape)
    return np.where(np.arange(n * d) % 2, 0.25, 0.75)


def u_late(shape):
    n, d = _rows(shape)
    a = np.zeros((n, d))
    a[-max(1, n // 3):] = 0.5
    return a


UNIFORM = [u_grid, u_const(0.5), u_const(0.0), u_const(ALMOST1), u_corners, u_alternate, u_late]


def n_grid(shape):
    return ndtri(u_grid(shape))


def n_const(c):
    return lambda shape: np.full(int(np.prod(shape)), c)


def n_axes(shape):
    n, d = _rows(shape)
    a = np.full((n, d), 1e-3)
    a[np.arange(n), np.arange(n) % d] = 2.0
    return a


def n_tails(shape):
    n, d = _rows(shape)
    return np.where(np.arange(n * d).reshape(n, d) % 2, 8.0, -8.0)


def n_tiny(shape):
    return 1e-9 * (1 + np.arange(int(np.prod(shape))))


NORMAL = [n_grid, n_const(1.0), n_const(-2.0), n_axes, n_tails, n_tiny]


def patterns(ch, normal=NORMAL, uniform=UNIFORM, free=6):
    """A policy: each of the first `free` draws takes any of the patterns, later ones the first pattern."""
    count = itertools.count()

    def policy(kind, params, shape):
        P = normal if kind == "normal" else uniform
        c = ch.choose(len(P), kind) if next(count) < free else 0
        a = np.asarray(P[c](shape), float).reshape(shape)
        if kind == "int":
            a = np.minimum(np.floor(np.mod(np.abs(a), 1.0) * params[0]), params[0] - 1)
        return a
    return policy


def fixed(normal=n_grid, uniform=u_grid):
    def policy(kind, params, shape):
        a = np.asarray((normal if kind == "normal" else uniform)(shape), float).reshape(shape)
        if kind == "int":
            a = np.minimum(np.floor(a * params[0]), params[0] - 1)
        return a
    return policy
