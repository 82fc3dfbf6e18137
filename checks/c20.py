"""C20: the minimizing maps minimize the fitted quadratic over the inactive variables."""
import itertools

import numpy as np

import data
import history
from c08 import flat_rotations, rotations, the_map
from core import Job, close, fail, raises, same, scripted
from fakegurobi import program
from policies import fixed
from refs import Zonotope
from sut import make_subspaces, optimizers

LEVEL = "model_checking"
RULE = ("every combination of dimensions, domain, basis, convex quadratic (curvature of active, inactive and mixed directions, "
        "flat ones) and set of active points (inside, on facets, at vertices, repeated); optimum by enumeration of active sets "
        "of the hypercube; every order and batch of active points; all histories of training and partitions")
ASSUMPTIONS = ["the training outputs come from a convex quadratic of the coordinates the surrogate uses, so the fit is exact",
               "bounded results attain the minimum to 2e-4 relative to the scale of the quadratic (SLSQP stops at 1e-6)"]


def fitted(m, n):
    return n + 2 if m - n > 2 else min(n + 1, m)


def quadratics(n, p):
    """(name, H, g) over the leading p coordinates."""
    Q = data.ortho(p, 4.0) if p > 1 else np.eye(1)
    w = data.weyl(1, p, 2.0)[0]
    yield "mixed", (Q * np.resize([3.0, 1.0, 0.5, 2.0, 0.25, 1.5, 0.75], p)).dot(Q.T), w
    yield "pull", np.eye(p), -3.0 * np.ones(p)
    E = np.zeros((p, p))
    E[:n, :n] = np.eye(n)
    yield "flat in the inactive", E, np.r_[w[:n], np.zeros(p - n)]
    yield "weak in the inactive", E, np.r_[w[:n], 0.004 * np.ones(p - n)]
    yield "linear", np.zeros((p, p)), 0.2 * w
    yield "one direction", 4.0 * np.outer(Q[:, 0], Q[:, 0]), w
    yield "steep", 100.0 * np.eye(p) + 10.0 * np.ones((p, p)), 20.0 * w
    yield "integers", np.eye(p) + np.ones((p, p)), np.ones(p)


def train(mp_cls, dom, X, H, g, p, c=2.0):
    E = np.asarray(dom.subspaces.eigenvecs)
    T = X.dot(E[:, :p])
    f = (0.5 * np.sum(T.dot(H) * T, axis=1) + T.dot(g) + c).reshape(-1, 1)
    mp = mp_cls(dom)
    mp.train(X, f)
    return mp, f


def the_class(kind):
    return optimizers.BoundedMinVariableMap if kind == "bounded" else optimizers.UnboundedMinVariableMap


def reference(kind, s, H, g, p, y):
    """Inactive variables, and the minimum of the quadratic plus 0.005|z|^2."""
    m, n = s.W1.shape
    k = p - n
    Hz = np.zeros((m - n, m - n))
    Hz[:k, :k] = H[n:, n:]
    Hz += 0.01 * np.eye(m - n)
    lin = np.zeros(m - n)
    lin[:k] = g[n:] + H[n:, :n].dot(y)
    const = 0.5 * y.dot(H[:n, :n]).dot(y) + g[:n].dot(y)

    def value(z):
        return 0.5 * z.dot(Hz).dot(z) + lin.dot(z) + const
    if kind == "unbounded":
        z = -np.linalg.solve(Hz, lin)
        return z, value(z), value
    b = np.concatenate((-1 - s.W1.dot(y), -1 + s.W1.dot(y)))
    st, z, f = program(lin, 0.5 * Hz, np.vstack((s.W2, -s.W2)), b - 1e-8)
    assert st == "optimal", st
    return z, f + const, value


def points(kind, s):
    m, n = s.W1.shape
    x = 0.9 * data.weyl(4, m, 5.0)
    g = x.dot(s.W1)
    yield "generic", g
    yield "one", g[:1]
    yield "repeated", np.vstack((g[:2], g[:1], g[:1]))
    yield "origin", np.zeros((2, n))
    if kind == "unbounded":
        yield "far", 50.0 * g[:2]
        yield "integers", np.floor(3 * g[:3])
        return
    Z = Zonotope(s.W1)
    V = Z.vertices()
    yield "vertices", V[:4]
    yield "near vertices", 0.999 * V[:3]
    if n > 1:
        f = []
        for q, h in list(zip(Z.normals, Z.h))[:3]:
            on = [v for v in V if abs(q.dot(v) - h) < 1e-9]
            f.append(np.mean(on, axis=0))
        yield "facets", np.array(f)
    yield "mixed", np.vstack((V[:1], g[:1], 0 * V[:1], 0.99 * V[1:2], g[1:2]))


def judge(ctx, kind, s, H, g, p, Y, X, ind, what):
    m, n = s.W1.shape
    NY = len(Y)
    fail(np.shape(X) != (NY, m), "{}: shape {}", what, np.shape(X))
    same(np.asarray(ind, float), np.arange(NY).reshape(-1, 1).astype(float), what + ": index")
    close(X.dot(s.W1), Y, 1e-8, what=what + ": active variables")
    if kind == "bounded":
        fail(np.max(np.abs(X)) > 1 + 1e-6, "{}: outside the hypercube by {}", what, np.max(np.abs(X)) - 1)
    if n == m:                                             # the inputs are determined
        close(X, Y.dot(s.W1.T), 1e-8, what=what)
        ctx.state(kind, m, n, np.round(X, 3))
        ctx.count("transitions")
        return
    for y, x in zip(Y, X):
        z = x.dot(s.W2)
        zr, fr, value = reference(kind, s, H, g, p, y)
        sc = 1 + abs(fr) + np.max(np.abs(H)) + np.max(np.abs(g))
        if kind == "unbounded":
            close(z, zr, 1e-5, 1e-5, what=what + ": inactive variables at {}".format(y))
        else:
            fail(value(z) > fr + 2e-4 * sc, "{}: value {} with inactive variables {} at {}, minimum {} at {}", what, value(z), z,
                 y, fr, zr)
            wmin = np.linalg.eigvalsh(H[n:, n:])[0] if p - n == m - n else 0.0
            tol = 0.15 + np.sqrt(4e-4 * sc / (max(wmin, 0) + 0.01)) * (wmin > 0.1)
            if wmin > 0.1 or np.max(np.abs(H)) <= 1.0:
                fail(np.max(np.abs(z - zr)) > tol, "{}: inactive variables {} at {}, minimizer {}", what, z, y, zr)
        ctx.state(kind, m, n, np.round(x, 3))
        ctx.count("transitions")


def minimizers(ctx, kind, m, n, bases):
    p = fitted(m, n)
    for nm, W in bases:
        s = make_subspaces(W, n=n)
        dom = the_map(kind, s).domain
        X0 = data.weyl(3 * (m + 1) * (m + 2), m, 7.0) * (1.0 if kind == "bounded" else 1.5)
        for hn, H, g in quadratics(n, p):
            mp = None
            with ctx.case({"map": kind, "m": m, "n": n, "W": nm, "quadratic": hn, "step": "train"}):
                mp, f = train(the_class(kind), dom, X0, H, g, p)
            if mp is None:
                continue
            for yn, Y in points(kind, s):
                with ctx.case({"map": kind, "m": m, "n": n, "W": nm, "quadratic": hn, "Y": yn}):
                    keep = Y.copy()
                    X, ind = mp.inverse(Y)
                    judge(ctx, kind, s, H, g, p, Y, X, ind, "inverse")
                    same(Y, keep, "argument")
                    for i in range(len(Y)):
                        x, k = mp.inverse(Y[i:i + 1])
                        close(x[0], X[i], 1e-9, what="point alone")
                    R, _ = mp.inverse(Y[::-1].copy())
                    close(R[::-1], X, 1e-9, what="other order")
                    X1, _ = mp.inverse(Y, 1)
                    same(X1, X, "one point asked for")
                    with scripted(fixed()):
                        X2, _ = mp.inverse(Y)
                    same(X2, X, "another state of the generator")
                    for N in (0, 2, 3, 10):
                        raises(lambda: mp.inverse(Y, N), "{} points".format(N))
            ctx.sample({"map": kind, "m": m, "n": n, "quadratic": hn, "H": H})


def many(ctx, kind, m, n, Ns, only):
    """Numbers of active points and inputs, sizes of the design and scales of the quadratic."""
    p = fitted(m, n)
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    dom = the_map(kind, s).domain
    for M in (2 * (p + 1) * (p + 2), 200, 500):
        X0 = data.weyl(max(M, 2 * (p + 1) * (p + 2)), m, 7.0)
        for hn, H, g in quadratics(n, p):
            if only and hn not in only:
                continue
            for sc in (1.0,) if kind == "bounded" else (1.0, 1e-2, 1e2):
                for N in Ns:
                    with ctx.case({"map": kind, "m": m, "n": n, "quadratic": hn, "scale": sc, "points": N, "design": M}):
                        mp, f = train(the_class(kind), dom, X0, sc * H, sc * g, p)
                        Y = 0.95 * data.weyl(N, m, 5.0).dot(s.W1)
                        keep = Y.copy()
                        X, ind = mp.inverse(Y)
                        judge(ctx, kind, s, sc * H, sc * g, p, Y, X, ind, "inverse")
                        same(Y, keep, "argument")
                        i = N // 2
                        close(mp.inverse(Y[i:i + 1])[0][0], X[i], 1e-8, what="point alone")
                if kind == "bounded" and M >= 200:
                    break


def histories(ctx, kind, m):
    """Training again, changes of partition and several maps on one domain."""
    E = data.ortho(m, 0.5)
    X0 = data.weyl(3 * (m + 1) * (m + 2), m, 7.0)
    ns = range(1, m + 1)
    for n1, n2 in itertools.product(ns, repeat=2):
        for q1, q2 in itertools.product((0, 1, 5), repeat=2):
            with ctx.case({"map": kind, "m": m, "partitions": (n1, n2), "quadratics": (q1, q2)}):
                s = make_subspaces(E, n=n1)
                dom = the_map(kind, s).domain
                p1 = fitted(m, n1)
                _, H1, g1 = list(quadratics(n1, p1))[q1]
                mp, _ = train(the_class(kind), dom, X0, H1, g1, p1)
                Y = 0.8 * data.weyl(2, m, 3.0).dot(s.W1)
                X, ind = mp.inverse(Y)
                judge(ctx, kind, s, H1, g1, p1, Y, X, ind, "first")
                s.partition(n2)
                p2 = fitted(m, n2)
                _, H2, g2 = list(quadratics(n2, p2))[q2]
                other, f2 = train(the_class(kind), dom, X0, H2, g2, p2)
                Y = 0.8 * data.weyl(2, m, 3.0).dot(s.W1)
                if n1 == n2:
                    X1, _ = mp.inverse(Y)
                    same(X1, X, "first map after a second one was trained")
                mp.train(X0, f2)
                X, ind = mp.inverse(Y)
                judge(ctx, kind, s, H2, g2, p2, Y, X, ind, "trained again")
                X2, _ = other.inverse(Y)
                same(X2, X, "two maps trained alike")


def jobs(tier):
    big = tier == "thorough"
    J = []
    for m in (2, 3, 4, 5) + ((6,) if big else ()):
        for n in range(1, m + 1):
            for kind in ("bounded", "unbounded"):
                b = list(rotations(m))
                if kind == "unbounded" or n == 1:
                    b += list(flat_rotations(m))
                for i, x in enumerate(b):
                    J.append(Job("{} m={} n={} {}".format(kind, m, n, x[0]), minimizers, kind, m, n, [x]))
    for m, n in ((2, 1), (3, 1), (3, 2), (4, 2)):
        J.append(Job("many bounded m={} n={}".format(m, n), many, "bounded", m, n, (1, 10, 11, 25, 33, 64, 101, 129), ("mixed", "pull")))
    for m, n in ((6, 1), (6, 3), (6, 5), (7, 2), (7, 4), (8, 3)) + (((8, 6), (8, 7)) if big else ()):
        J.append(Job("many bounded m={} n={}".format(m, n), many, "bounded", m, n, (1, 5), ("mixed", "pull")))
    for m, n in ((2, 1), (3, 1), (3, 2), (4, 2), (6, 3), (6, 1), (8, 7), (10, 2), (12, 11), (20, 3), (33, 1)):
        J.append(Job("many unbounded m={} n={}".format(m, n), many, "unbounded", m, n, (1, 10, 11, 33, 101, 129, 257, 1001), None))
    for kind in ("bounded", "unbounded"):
        for m in (2, 3, 4) + ((5,) if big else ()):
            J.append(Job("histories {} m={}".format(kind, m), histories, kind, m))
    J += history.jobs("C20", tier)
    return J
