"""C08: forward and inverse maps are inverse to each other and keep order."""
import itertools

import numpy as np

import data
import history
from core import Job, close, explore, fail, same, scripted
from policies import fixed, patterns
from refs import Zonotope
from sut import domains, make_subspaces, seeded

LEVEL = "model_checking"
RULE = ("maps of both kinds x dimensions x point sets (generic, center, facets, vertices, repeated) x samples per point; "
        "all assignments of answer patterns to the draws with at most two deviations; all partition histories")
ASSUMPTIONS = ["bases in general position"]
TOL = 1e-6


def rotations(m):
    yield "rotation", data.ortho(m, 0.5)
    yield "rotation 2", data.ortho(m, 1.5)


def flat_rotations(m):
    """Bases with zero entries and equal entries (unbounded maps, and bounded maps with one active variable)."""
    yield "identity", np.eye(m)
    H = np.eye(m)
    v = np.ones((m, 1))
    yield "householder", H - 2 * v.dot(v.T) / m
    if m > 2:
        W = np.eye(m)
        W[:2, :2] = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
        yield "block", W


def the_map(kind, s):
    if kind == "bounded":
        return seeded(lambda: domains.BoundedActiveVariableMap(domains.BoundedActiveVariableDomain(s)))
    return domains.UnboundedActiveVariableMap(domains.UnboundedActiveVariableDomain(s))


def points(kind, s):
    """Named sets of active points."""
    m, n = s.W1.shape
    if kind == "unbounded":
        g = 2 * data.weyl(4, n, 5.0)
        yield "generic", g
        yield "one", g[:1]
        yield "repeated", np.vstack((g[:2], g[:1], g[:1]))
        yield "origin and far", np.vstack((np.zeros((1, n)), 1e3 * g[:1]))
        yield "integers", np.floor(3 * g[:3])
        return
    x = 0.9 * data.weyl(4, m, 5.0)
    g = x.dot(s.W1)
    yield "generic", g
    yield "one", g[:1]
    yield "repeated", np.vstack((g[:2], g[:1], g[:1]))
    yield "center", np.zeros((2, n))
    V = Zonotope(s.W1).vertices() if n > 1 else np.array([[1.0], [-1.0]]) * np.sum(np.abs(s.W1))
    yield "vertices", V[:3]
    yield "close together", np.vstack([V[:1] * (1 - d) for d in (2e-3, 1.2e-3, 1e-3, 3e-4, 2e-4, 3e-5, 2e-5)])
    yield "near vertices", (1 - 1e-7) * V[:3]
    mix = np.vstack((V[:1], g[:1], 0 * V[:1], V[-1:], 0.999 * V[1:2]))
    yield "mixed", mix
    if n > 1:
        Z = Zonotope(s.W1)
        f = []
        for q, h in list(zip(Z.normals, Z.h))[:3]:
            on = [v for v in V if abs(q.dot(v) - h) < 1e-9]
            f.append(np.mean(on, axis=0))
        yield "facets", np.array(f)


def check_inverse(ctx, kind, s, mp, Y, N, what, log=None):
    m, n = s.W1.shape
    NY = Y.shape[0]
    X, ind = mp.inverse(Y, N)
    fail(np.shape(X) != (N * NY, m), "{}: points have shape {} for {} of {} and {} each", what, X.shape, NY, n, N)
    fail(np.shape(ind) != (N * NY, 1), "{}: index has shape {}", what, np.shape(ind))
    want = np.repeat(np.arange(NY), N).reshape(-1, 1)
    same(np.asarray(ind, float), want.astype(float), what + ": index")
    Yb, Zb = mp.forward(X)
    close(Yb, np.repeat(Y, N, axis=0), 1e-9, what=what + ": forward of the inverse")
    close(X.dot(s.W1), np.repeat(Y, N, axis=0), 1e-9, what=what + ": active variables of the inverse")
    fail(Zb.shape != (N * NY, m - n), "{}: inactive variables have shape {}", what, Zb.shape)
    if kind == "bounded":
        fail(np.max(np.abs(X)) > 1 + TOL, "{}: point outside the hypercube by {}", what, np.max(np.abs(X)) - 1)
    ctx.state(kind, m, n, N, X)
    return X, Zb


def forwards(ctx, m):
    for nm, W in itertools.chain(rotations(m), flat_rotations(m)):
        s = make_subspaces(W)
        for n in range(1, m + 1):
            s.partition(n)
            kinds = ["unbounded"] + (["bounded"] if n == 1 or nm.startswith("rotation") else [])
            for kind in kinds:
                mp = the_map(kind, s)
                for M in (1, 2, 3, 5):
                    for name, X in data.arrays(M, m):
                        with ctx.case({"m": m, "n": n, "W": nm, "map": kind, "X": name, "M": M}):
                            Y, Z = mp.forward(X)
                            sc = max(np.max(np.abs(X)), 1e-300)
                            close(Y / sc, X.dot(W_of(s)[:, :n]) / sc, 1e-12, what="active variables")
                            close(Z / sc, X.dot(W_of(s)[:, n:]) / sc, 1e-12, what="inactive variables")
                            close((Y.dot(s.W1.T) + Z.dot(s.W2.T)) / sc, X / sc, 1e-10, what="combined")
                            for i in range(M):
                                y, z = mp.forward(X[i:i + 1])
                                close(y / sc, Y[i:i + 1] / sc, 1e-12, what="alone")
                                close(z / sc, Z[i:i + 1] / sc, 1e-12, what="alone")
                            ctx.state(m, n, Y / sc, Z / sc)
                            ctx.count("transitions")


def W_of(s):
    return np.asarray(s.eigenvecs)


def inverses(ctx, kind, m, n, Ns):
    for nm, W in itertools.chain(rotations(m), flat_rotations(m) if kind == "unbounded" else ()):
        s = make_subspaces(W, n=n)
        mp = the_map(kind, s)
        for name, Y in points(kind, s):
            for N in Ns:
                with ctx.case({"map": kind, "m": m, "n": n, "W": nm, "Y": name, "N": N}):
                    keep = Y.copy()
                    with scripted(fixed()) as c:
                        X, Z = check_inverse(ctx, kind, s, mp, Y, N, "inverse")
                        log = list(c.log)
                    same(Y, keep, "argument")
                    if kind == "unbounded" and n < m:
                        fail(any(k != "normal" for k, _, _, _ in log), "inactive variables are not normal draws: {}",
                             [k for k, _, _, _ in log])
                        draws = np.concatenate([a.ravel() for _, _, _, a in log])
                        if draws.size == Z.size:
                            close(np.sort(Z.ravel()), np.sort(draws), 1e-9, what="inactive variables and draws")
                        fail(len(set(np.round(Z.ravel(), 9))) != Z.size, "draws used more than once: {}", Z)
                    if N == 1:
                        with scripted(fixed()):
                            X1, i1 = mp.inverse(Y)
                        same(X1, X, "default of one point")
                    ctx.count("transitions")
        ctx.sample({"map": kind, "m": m, "n": n, "W1": s.W1, "X": X[:2]})


def answers(ctx, kind, m, n, bound, NY=2, N=2):
    W = data.ortho(m, 0.5)
    s = make_subspaces(W, n=n)
    mp = the_map(kind, s)
    for name, Y in points(kind, s):
        if name in ("one", "center", "integers"):
            continue
        Y = Y[:NY]

        def run(ch):
            with scripted(patterns(ch)):
                check_inverse(ctx, kind, s, mp, Y, N, "answers {}".format([c for _, c, _, _ in ch.trace]))
        gen = explore(run, bound=bound, stats=ctx.stats)
        while True:
            with ctx.case({"map": kind, "m": m, "n": n, "Y": name, "answers": "patterns"}):
                if next(gen, None) is None:
                    break


def many(ctx, kind, sizes):
    """Numbers of points, of samples per point and of dimensions at which a routine could change its method."""
    for m, n, NY, N in sizes:
        s = make_subspaces(data.ortho(m, 0.5), n=n)
        mp = the_map(kind, s)
        Y = (0.9 * data.weyl(NY, m, 5.0)).dot(s.W1) if kind == "bounded" else 2 * data.weyl(NY, n, 5.0)
        with ctx.case({"map": kind, "m": m, "n": n, "points": NY, "samples": N}):
            with scripted(fixed()):
                X, Z = check_inverse(ctx, kind, s, mp, Y, N, "inverse")
            if n < m and kind == "unbounded":
                fail(len(np.unique(np.round(Z.ravel(), 12))) != Z.size, "draws used more than once")
            Yf, Zf = mp.forward(X)
            close(Zf, X.dot(s.W2), 1e-10, what="inactive variables")
            ctx.count("transitions", NY)


def histories(ctx, kind, m, depth):
    W = data.ortho(m, 0.5)
    ns = range(1, m + 1)
    x = np.vstack((0.9 * data.weyl(3, m, 5.0), np.sign(data.weyl(2, m, 5.0))))
    for start in ns:
        for hist in itertools.product(ns, repeat=depth):
            with ctx.case({"map": kind, "m": m, "start": start, "partitions": hist}):
                s = make_subspaces(W, n=start)
                mp = the_map(kind, s)
                for n in hist:
                    s.partition(n)
                    with scripted(fixed()):
                        X, _ = check_inverse(ctx, kind, s, mp, x.dot(s.W1), 2, "after {}".format(hist))
                    if kind == "bounded":
                        np.random.seed(2)
                        mp.domain.compute_boundary()
                        with scripted(fixed()):
                            X2, _ = check_inverse(ctx, kind, s, mp, x.dot(s.W1), 2, "boundary after {}".format(hist))
                        same(X2, X, "before and after computing the boundary")
                    with scripted(fixed()):
                        new = the_map_fresh(kind, s)
                        X3, _ = new.inverse(x.dot(s.W1), 2)
                    same(X3, X, "map on a newly built domain")
                    ctx.count("transitions")


def the_map_fresh(kind, s):
    d = domains.BoundedActiveVariableDomain.__new__(domains.BoundedActiveVariableDomain) if kind == "bounded" else None
    if d is None:
        return domains.UnboundedActiveVariableMap(domains.UnboundedActiveVariableDomain(s))
    d.subspaces = s
    d.m, d.n = s.W1.shape
    return domains.BoundedActiveVariableMap(d)


def several(ctx, m):
    """Two maps on different subspaces used in turn do not disturb each other."""
    for n1, n2 in itertools.product(range(1, m + 1), repeat=2):
        for k1, k2 in itertools.product(("bounded", "unbounded"), repeat=2):
            s1, s2 = make_subspaces(data.ortho(m, 0.5), n=n1), make_subspaces(data.ortho(m, 1.5), n=n2)
            a, b = the_map(k1, s1), the_map(k2, s2)
            x = 0.9 * data.weyl(2, m, 5.0)
            with ctx.case({"m": m, "maps": [(k1, n1), (k2, n2)]}):
                first = None
                for order in ("aba", "abba"):
                    for w in order:
                        k, s, mp = (k1, s1, a) if w == "a" else (k2, s2, b)
                        with scripted(fixed()):
                            X, _ = check_inverse(ctx, k, s, mp, x.dot(s.W1), 3, order)
                        if w == "a":
                            first = X if first is None else first
                            same(X, first, "same call later")
                        ctx.count("transitions")


def jobs(tier):
    big = tier == "thorough"
    J = []
    for m in (2, 3, 4) + ((5, 6) if big else ()):
        J.append(Job("forward m={}".format(m), forwards, m))
    for m in (2, 3, 4, 5) + ((6, 7) if big else ()):
        for n in range(1, m + 1):
            J.append(Job("inverse unbounded m={} n={}".format(m, n), inverses, "unbounded", m, n, (1, 2, 3, 5, 10)))
            J.append(Job("inverse bounded m={} n={}".format(m, n), inverses, "bounded", m, n, (1, 2, 3, 5, 10)))
            if n < m and m < (7 if big else 5):
                for kind in ("unbounded", "bounded"):
                    J.append(Job("answers {} m={} n={}".format(kind, m, n), answers, kind, m, n, 3 if big else 2))
    for kind in ("unbounded", "bounded"):
        J.append(Job("histories {} m=3".format(kind), histories, kind, 3, 3 if big else 2))
        J.append(Job("histories {} m=4".format(kind), histories, kind, 4, 3 if big else 2))
    J.append(Job("several maps", several, 3))
    sizes = [(m, n, NY, N) for m, n in ((2, 1), (3, 2), (4, 2)) for NY, N in itertools.product(
        (1, 7, 33, 50, 51, 64, 100, 101, 128, 129, 257, 500, 1000, 1001), (1, 2, 3, 7, 33, 64, 100, 101, 129, 200))
        if NY * N <= 40000]
    sizes += [(m, n, NY, N) for m in data.BIGDIM for n in (1, 2, m // 2, m - 1, m) for NY, N in ((1, 1), (3, 4), (20, 11))]
    sizes += [(3, 1, 1, N) for N in (1000, 1001, 1024, 5000, 10001)] + [(3, 2, NY, 1) for NY in (2000, 4097, 10001)]
    for i in range(4):
        J.append(Job("many unbounded {}".format(i), many, "unbounded", sizes[i::4]))
    sizes = [(m, n, NY, N) for m, n in ((2, 1), (3, 2), (4, 2), (3, 1)) for NY, N in (
        (1, 37), (1, 100), (1, 101), (2, 65), (7, 7), (11, 1), (20, 2), (33, 1), (37, 3), (50, 1), (51, 2), (60, 1),
        (64, 1), (65, 1), (75, 1), (100, 1), (101, 1), (128, 1), (130, 2)) + (((257, 1), (501, 1), (1001, 1)) if big else ())]
    sizes += [(m, n, 4, 3) for m in (6, 8, 10, 12, 20) for n in ((1, 2, 3) if m < 9 else (1, 2))] + [(5, 4, 4, 3), (6, 5, 4, 3)] + [(3, 2, 260, 1), (3, 1, 1, 300), (3, 1, 1, 1001)]
    for i in range(4):
        J.append(Job("many bounded {}".format(i), many, "bounded", sizes[i::4], timeout=300))
    J += history.jobs("C08", tier)
    return J
