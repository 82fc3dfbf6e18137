"""Tests of the machinery itself, without the code under test: the explorer is exhaustive, references agree."""
import itertools
import sys

import numpy as np

import core
import data
import fakegurobi
import refs
from scipy.optimize import linprog


def explorer():
    seen = {tuple(c) for c, _ in core.explore(lambda ch: [ch.choose(3) for _ in range(4)])}
    assert seen == set(itertools.product(range(3), repeat=4))
    seen = {tuple(c) for c, _ in core.explore(lambda ch: [ch.choose(3) for _ in range(5)], bound=2)}
    assert seen == {t for t in itertools.product(range(3), repeat=5) if sum(x > 0 for x in t) <= 2}

    def tree(ch):
        return [ch.choose(2) for _ in range(1 + 2 * ch.choose(2))]
    assert len(list(core.explore(tree))) == 2 + 8


def generator():
    with core.scripted(lambda kind, params, shape: np.zeros(shape)):
        assert np.random.normal() == 0 and np.all(np.random.uniform(-1, 1, (2, 3)) == -1)
        assert np.all(np.random.randint(5, size=3) == 0) and np.random.choice(3, 2, False).tolist() == [0, 1]
    a = (np.random.seed(3), np.random.normal(size=3))[1]
    assert np.array_equal(a, np.random.RandomState(3).normal(size=3))


def programs():
    for c, A, b in itertools.product(itertools.product((-1, 0, 1), repeat=2), itertools.product((-1, 1), repeat=4),
                                     itertools.product((-1, 0), repeat=2)):
        A = np.vstack((np.array(A, float).reshape(2, 2), np.eye(2), -np.eye(2)))
        bb = np.concatenate((b, [-2.0] * 4))
        k, x, f = fakegurobi.program(np.array(c, float), np.zeros((2, 2)), A, bb)
        r = linprog(c, A_ub=-A, b_ub=-bb, bounds=[(None, None)] * 2)
        assert (k == "optimal") == (r.status == 0) and (k != "optimal" or abs(f - r.fun) < 1e-8)


def references():
    A, b = data.weyl(9, 3), data.weyl(9, 1, 1.0)
    assert np.allclose(refs.lsq(A, b), np.linalg.lstsq(A, b, rcond=None)[0][:, 0])
    Z = refs.Zonotope(data.ortho(4, 0.5)[:, :2])
    assert len(Z.vertices()) == 8 and np.all(np.abs(Z.slack(Z.vertices())) < 1e-9)


for t in (explorer, generator, programs, references):
    t()
print("machinery ok")
