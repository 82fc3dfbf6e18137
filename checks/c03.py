"""C03: local linear gradients are least-squares fits to the nearest other samples, for every choice of centers."""
import itertools
import math

import numpy as np

import data
import history
from core import Job, close, explore, fail, index_answers, scripted
from refs import eigen_ok, lsq
from sut import gradients, subspaces

LEVEL = "model_checking"
RULE = ("every sequence of random centers on small data sets (stateless enumeration of all answers of the generator), "
        "every constant and cyclic sequence of centers on larger ones; every returned row is compared with the set "
        "of admissible neighborhood fits")
ASSUMPTIONS = ["neighborhoods determine the linear fit (enough distinct samples)",
               "equally distant samples may be taken in any order"]


def fits(X, f, p):
    """For every center the admissible fits to its p nearest other samples."""
    M, m = X.shape
    out = []
    for c in range(M):
        D = np.sum((X - X[c]) ** 2, axis=1)
        oth = [i for i in range(M) if D[i] > 0]
        oth.sort(key=lambda i: D[i])
        k = min(p, len(oth))
        if k == 0:
            out.append([])
            continue
        cut = D[oth[k - 1]]
        tol = 1e-9 * cut
        sure = [i for i in oth if D[i] < cut - tol]
        tied = [i for i in oth if abs(D[i] - cut) <= tol]
        g = []
        for extra in itertools.combinations(tied, k - len(sure)):
            S = sure + list(extra)
            A = np.hstack((np.ones((len(S), 1)), X[S]))
            g.append(lsq(A, f[S]) [1:] if len(S) > m and np.linalg.matrix_rank(A) == m + 1
                     else np.linalg.lstsq(A, f[S], rcond=None)[0].ravel()[1:])
        out.append(g)
    return out


def rows_of(M, m):
    return min(int(math.ceil(10 * m * math.log(m))), M - 1)


def centers_policy(ch, M, elementwise=True):
    def policy(kind, params, shape):
        n = int(np.prod(shape))
        return index_answers(kind, params, [ch.choose(M, "center") for _ in range(n)], M)
    return policy


def judge(ctx, df, ref, scale, what):
    """Each row is an admissible fit; returns the centers it could belong to."""
    who = []
    for r in df:
        ok = [c for c, g in enumerate(ref) if any(np.max(np.abs(r - x)) <= 1e-7 * scale for x in g)]
        fail(not ok, "{}: row {} is the fit to no neighborhood; fits are {}", what, r, ref)
        who.append(ok)
    return who


def data_sets(M, m):
    X = data.weyl(M, m, 0.3)
    t = X.dot(np.arange(1, m + 1.0))
    yield "generic", X, np.exp(0.4 * t)
    yield "linear", X, 3.0 - 2 * t
    if M >= 5:
        Z = X.copy(); Z[1] = Z[0]
        yield "two equal points", Z, np.exp(0.4 * Z.dot(np.arange(1, m + 1.0))) + 0.1 * np.arange(M)
    yield "scattered", X * np.array([1.0, 10.0, 0.1, 1, 1, 1])[:m], np.sin(3 * t)
    yield "far away", X + 100.0, t ** 2
    yield "small", X * 2.0 ** -23, np.exp(0.4 * t)
    yield "large", X * 2.0 ** 23, np.exp(0.4 * t)
    if M >= 5:
        Z = X.copy(); Z[1] = Z[0] + 1e-7 * X[2]
        yield "two near points", Z, np.exp(0.4 * Z.dot(np.arange(1, m + 1.0))) + 0.1 * np.arange(M)
    # sorted by distance from the first point, and reversed: neighbor order differs from sample order
    o = np.argsort(np.sum((X - X[0]) ** 2, axis=1))
    yield "sorted", X[o], np.exp(0.4 * t[o])
    yield "reversed", X[o[::-1]], np.exp(0.4 * t[o[::-1]])


def enumerate_centers(ctx, M, m, p):
    for name, X, f in data_sets(M, m):
        f = f.reshape(M, 1)
        pp = p if p is not None else min(int(math.floor(1.7 * m)), M)
        if name in ("two equal points", "two near points") and pp < m + 2:
            continue                    # the neighborhood may not determine the fit
        ref = fits(X, f, pp)
        scale = max(1e-12, max(np.max(np.abs(x)) for g in ref for x in g))
        reached = set()
        for wn, w in (("none", None), ("increasing", (np.arange(M).reshape(M, 1) + 1.0) / M)):
            gen = explore(lambda ch: _run(ch, X, f, p, w, M), stats=ctx.stats)
            while True:
                with ctx.case({"M": M, "m": m, "p": p, "data": name, "weights": wn}):
                    nxt = next(gen, None)
                    if nxt is None:
                        break
                    choices, df = nxt
                    fail(df.shape != (rows_of(M, m), m), "shape {} instead of {}", df.shape, (rows_of(M, m), m))
                    who = judge(ctx, df, ref, scale, "centers {}".format(choices))
                    for k, ok in enumerate(who):
                        if len(ok) == 1:
                            reached.add((k, ok[0]))
                    if name == "linear" and pp > m and M - 1 > m:
                        close(df, np.tile(-2 * np.arange(1, m + 1.0), (df.shape[0], 1)), 1e-7, what="linear data")
                    ctx.state(name, p, df)
                    ctx.sample({"data": name, "centers": choices, "gradients": df})
        with ctx.case({"M": M, "m": m, "p": p, "data": name, "coverage": "every sample can be a center"}):
            single = [c for c in range(M) if len(ref[c]) == 1 and all(
                c == d or min(np.max(np.abs(ref[c][0] - x)) for x in ref[d]) > 1e-5 * scale
                for d in range(M) if ref[d])]
            miss = [c for c in single for k in range(rows_of(M, m)) if (k, c) not in reached]
            fail(miss, "samples {} never are the center of some row", sorted(set(miss)))


def _run(ch, X, f, p, w, M):
    with scripted(centers_policy(ch, M)):
        return gradients.local_linear_gradients(X, f, p=p, weights=w)


def fixed_centers(ctx, sizes):
    """Larger data: all constant and all cyclic sequences of centers."""
    for M, m in sizes:
        for name, X, f in data_sets(M, m):
            f = f.reshape(M, 1)
            for p in (None, m + 1, m + 2, (m + 1 + M) // 2, M - 1, M):
                if p is not None and not m + 1 <= p <= M:
                    continue
                pp = p if p is not None else min(int(math.floor(1.7 * m)), M)
                if pp < m + 1 or (name in ("two equal points", "two near points") and pp < m + 2):
                    continue
                ref = fits(X, f, pp)
                scale = max(1e-12, max(np.max(np.abs(x)) for g in ref for x in g))
                for start in range(0, M, max(1, M // 6)):
                    for step in (0, 1, M - 1):
                        with ctx.case({"M": M, "m": m, "p": p, "data": name, "start": start, "step": step}):
                            it = itertools.count()

                            def policy(kind, params, shape):
                                return index_answers(kind, params, [(start + step * next(it)) % M
                                                     for _ in range(int(np.prod(shape)))], M)
                            with scripted(policy):
                                df = gradients.local_linear_gradients(X, f, p=p)
                            fail(df.shape != (rows_of(M, m), m), "shape {}", df.shape)
                            judge(ctx, df, ref, scale, "start {} step {}".format(start, step))
                            ctx.state(M, m, p, name, df[:2])
                            ctx.count("transitions", df.shape[0])


def offsets(ctx, sizes):
    """Data far from zero in inputs and outputs, of every magnitude, and weights of every magnitude."""
    for M, m in sizes:
        X0 = data.weyl(M, m, 0.3)
        t = X0.dot(np.arange(1, m + 1.0))
        for xn, X in (("plain", X0), ("plus 1e3", X0 + 1e3), ("minus 1e5", X0 - 1e5), ("one input plus 1e4", X0 + 1e4 * (np.arange(m) == m - 1)),
                      ("tiny at 1", 1.0 + 1e-5 * X0), ("times 1e-6", 1e-6 * X0), ("times 1e6", 1e6 * X0),
                      ("mixed units", X0 * 10.0 ** (np.arange(m) % 3))):
            for fn, f in (("plain", np.exp(0.4 * t)), ("plus 1e6", np.exp(0.4 * t) + 1e6), ("minus 50", np.exp(0.4 * t) - 50),
                          ("times 1e-9", 1e-9 * np.exp(0.4 * t)), ("times 1e9", 1e9 * np.exp(0.4 * t)), ("constant", np.full(M, 7.0))):
                f = f.reshape(M, 1)
                for p in (None, m + 2, M - 2):
                    pp = p if p is not None else min(int(math.floor(1.7 * m)), M)
                    if pp < m + 1:
                        continue
                    ref = fits(X, f, pp)
                    size = max(np.max(np.abs(x)) for g in ref for x in g)
                    span = np.max(np.abs(f)) / np.min(np.std(X, axis=0))
                    scale = size + 1e-6 * span
                    for wn, w in (("none", None), ("1e-6", np.full((M, 1), 1e-6)), ("1e3", np.full((M, 1), 1e3)),
                                  ("varied", 10.0 ** ((np.arange(M) % 7) - 3.0).reshape(M, 1))):
                        if wn != "none" and fn not in ("plain", "plus 1e6"):
                            continue
                        with ctx.case({"M": M, "m": m, "p": p, "inputs": xn, "outputs": fn, "weights": wn}):
                            pos = itertools.count()
                            with scripted(lambda kind, params, shape: index_answers(
                                    kind, params, [next(pos) % M for _ in range(int(np.prod(shape)))], M)):
                                df = gradients.local_linear_gradients(X, f, p=p, weights=w)
                            fail(df.shape != (rows_of(M, m), m), "shape {}", df.shape)
                            judge(ctx, df, ref, 10 * scale, "centers in order")
                            ctx.state(M, m, p, xn, fn, df[:2])
                            ctx.count("transitions", df.shape[0])


def ties(ctx):
    """Grids and repeated points: any of the equally distant samples may be used, no other."""
    sets = []
    g2 = np.array(list(itertools.product((-1.0, 0.0, 1.0), repeat=2)))
    sets.append(("3x3 grid", g2))
    sets.append(("3x3 grid twice", np.vstack((g2, g2))))
    sets.append(("cube", np.array(list(itertools.product((-1.0, 1.0), repeat=3)))))
    sets.append(("integers", np.array([[0, 0], [1, 0], [0, 1], [2, 2], [-1, 2], [0, 0]], float)))
    for k in (3, 4, 5, 6, 9):
        sets.append(("{} equal samples".format(k), np.vstack((np.zeros((k, 2)), data.weyl(6, 2, 0.3), 0.5 * np.ones((k, 2))))))
    for name, X in sets:
        M, m = X.shape
        for lin in (True, False):
            f = X.dot(np.arange(1, m + 1.0)) if lin else np.exp(X[:, 0]) + X[:, -1] ** 2
            f = f.reshape(M, 1)
            for p in range(m + 1, min(M, 7) + 1):
                ref = fits(X, f, p)
                for c in range(M):
                    with ctx.case({"data": name, "p": p, "center": c, "linear": lin}):
                        with scripted(lambda kind, params, shape: index_answers(
                                kind, params, [c] * int(np.prod(shape)), M)):
                            df = gradients.local_linear_gradients(X, f, p=p)
                        for r in df:
                            fail(not any(np.max(np.abs(r - x)) < 1e-8 for x in ref[c]),
                                 "row {} is no fit to {} nearest neighbors of sample {}: {}", r, p, c, ref[c])
                        ctx.state(name, p, c, df[0])
                        ctx.count("transitions", df.shape[0])


def opg(ctx, M, m):
    X = data.weyl(M, m, 0.3)
    f = np.exp(0.4 * X.dot(np.arange(1, m + 1.0))).reshape(M, 1)
    p = min(int(math.floor(1.7 * m)), M)
    ref = [g[0] for g in fits(X, f, p)]
    R = rows_of(M, m)
    want = [(c, sum(np.outer(ref[i], ref[i]) for i in c) / R)
            for c in itertools.combinations_with_replacement(range(M), R)]
    for nm in ("compute", "opg_subspace", "compute weighted"):
        w = (np.arange(M).reshape(M, 1) + 1.0) / M
        seen = set()

        def run(ch):
            with scripted(centers_policy(ch, M)):
                if nm == "opg_subspace":
                    return subspaces.opg_subspace(X, f, np.ones((M, 1)) / M)
                s = subspaces.Subspaces()
                s.compute(X=X, f=f, sstype='OPG', weights=None if nm == "compute" else w)
                return s.eigenvals, s.eigenvecs
        for choices, (e, W) in explore(run, stats=ctx.stats):
            with ctx.case({"M": M, "m": m, "centers": choices, "entry": nm}):
                C = (W * e[:, 0]).dot(W.T)
                d = [np.max(np.abs(C - c)) for _, c in want]
                k = int(np.argmin(d))
                fail(d[k] > 1e-8 * np.max(np.abs(want[k][1])), "not the mean of outer products of {} fits", R)
                eigen_ok(e, W, want[k][1], "OPG", 1e-7)
                seen.add(want[k][0])
                ctx.state(e, C)
        with ctx.case({"M": M, "entry": nm, "coverage": True}):
            tol = 1e-9 * max(np.max(np.abs(c)) for _, c in want)
            uniq = []
            for _, c in want:
                if not any(np.max(np.abs(c - d)) < tol for d in uniq):
                    uniq.append(c)
            fail(len(seen) < len(uniq), "{} of {} estimates reached", len(seen), len(uniq))


def row_counts(ctx, pairs):
    for M, m in pairs:
        with ctx.case({"M": M, "m": m}):
            X = data.weyl(M, m, 0.7)
            f = (1.0 + X.dot(np.arange(1, m + 1.0))).reshape(M, 1)
            with scripted(lambda kind, params, shape: index_answers(
                    kind, params, range(int(np.prod(shape))), M)):
                df = gradients.local_linear_gradients(X, f, p=M if M < 2 * m + 2 else 2 * m + 1)
            fail(df.shape != (rows_of(M, m), m), "shape {} instead of {}", df.shape, (rows_of(M, m), m))
            if M > m + 1:
                close(df, np.tile(np.arange(1, m + 1.0), (df.shape[0], 1)), 1e-6, what="linear data")
            ctx.state(df.shape)
            ctx.count("transitions", df.shape[0])


def many_samples(ctx, sizes):
    """Many samples, few distinct centers: the fit to the nearest samples is found by its own center."""
    for M, m, p in sizes:
        X = data.weyl(M, m, 0.3)
        f = np.exp(0.4 * X.dot(np.arange(1, m + 1.0))).reshape(M, 1)
        pp = p if p is not None else min(int(math.floor(1.7 * m)), M)
        R = rows_of(M, m)
        fit = {}
        for start, step in ((0, 0), (M - 1, 0), (M // 2, 0), (0, 1), (M - 1, M - 1), (1, 37)):
            with ctx.case({"M": M, "m": m, "p": p, "start": start, "step": step}):
                pos = itertools.count()
                with scripted(lambda kind, params, shape: index_answers(
                        kind, params, [(start + step * next(pos)) % M for _ in range(int(np.prod(shape)))], M)):
                    df = gradients.local_linear_gradients(X, f, p=p)
                fail(df.shape != (R, m), "shape {} instead of {}", df.shape, (R, m))
                for k in range(R):
                    c = (start + step * k) % M
                    if c not in fit:
                        D = np.sum((X - X[c]) ** 2, axis=1)
                        S = [i for i in np.argsort(D, kind="stable") if i != c][:pp]
                        fit[c] = lsq(np.hstack((np.ones((pp, 1)), X[S])), f[S])[1:]
                # every sequence used is a permutation of what a reordering of the draws would give, so compare as sets
                want = np.array([fit[(start + step * k) % M] for k in range(R)])
                left = list(range(R))
                for r in df:
                    d = [np.max(np.abs(r - want[i])) for i in left]
                    i = int(np.argmin(d))
                    fail(d[i] > 1e-6 * np.max(np.abs(want)), "row {} is the fit of no center drawn", r)
                    left.pop(i)
                ctx.state(M, m, p, df[:3])
                ctx.count("transitions", R)


def jobs(tier):
    big = tier == "thorough"
    J = []
    for M, m, ps in ((4, 2, (None, 3, 4)), (5, 2, (None, 3, 4, 5)), (5, 3, (None, 4, 5))) + (
            ((6, 2, (None, 4, 6)), (6, 3, (None, 5))) if big else ()):
        for p in ps:
            J.append(Job("all centers M={} m={} p={}".format(M, m, p), enumerate_centers, M, m, p))
    J.append(Job("ties", ties))
    for k, sz in enumerate(((7, 2), (9, 3), (10, 4), (14, 2), (16, 3), (15, 5), (30, 2), (40, 3), (14, 6)) + (
            ((80, 4), (120, 2), (100, 6), (30, 8)) if big else ())):
        J.append(Job("fixed centers {}x{}".format(*sz), fixed_centers, [sz]))
    sizes = [(M, 2, p) for M in (60, 101, 128, 129, 200, 256, 257, 300, 500, 501, 512, 513, 1000, 1001, 1024, 1025, 1500, 2001)
             for p in (None, 7)]
    sizes += [(300, 3, 60), (300, 3, 299), (600, 2, 120), (600, 2, 513), (1100, 2, 1050), (300, 5, None), (400, 10, None),
              (500, 10, 30), (600, 12, None), (1201, 3, None), (64, 8, 20), (700, 16, 40)]
    for i in range(6):
        J.append(Job("many samples {}".format(i), many_samples, sizes[i::6]))
    for sz in ((14, 2), (17, 3), (24, 4)):
        J.append(Job("offsets {}x{}".format(*sz), offsets, [sz]))
    J.append(Job("OPG 4x2", opg, 4, 2))
    J.append(Job("OPG 5x2", opg, 5, 2))
    if big:
        J.append(Job("OPG 6x2", opg, 6, 2))
    J.append(Job("row counts", row_counts, [(M, m) for m in range(2, 7) for M in
                                           list(range(m + 2, m + 8)) + [14, 15, 16, 33, 34, 35, 56, 57, 80, 100, 130]]))
    J += history.jobs("C03", tier)
    return J
