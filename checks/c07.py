"""C07: the bounded domain of the active variables is exactly the image of the hypercube."""
import itertools

import numpy as np

import data
import history
from core import CTL, Job, close, explore, fail, same, scripted
from refs import Zonotope
from sut import domains, make_subspaces, seeded, subspaces

LEVEL = "model_checking"
RULE = ("bases in general position x sizes; every sequence of the first random directions over one direction per cell "
        "of the arrangement, also one direction at a time; all histories of partition and boundary computation; all "
        "one-column bases over a small alphabet; reference: enumeration of the hyperplane arrangement")
ASSUMPTIONS = ["bases in general position (any n rows independent, none orthogonal to a drawn direction)",
               "after the explored directions, the generator eventually draws from every cell"]


def bases(m, n):
    for k in range(3):
        yield "rotation {}".format(k), data.ortho(m, 0.5 + k)[:, :n]
    W = data.weyl(m, n, 1.3)
    yield "orthogonalized", np.linalg.qr(W)[0]
    yield "positive first", np.abs(np.linalg.qr(np.abs(data.weyl(m, n, 2.0)) + 0.2)[0][:, :1]) if n == 1 else \
        np.linalg.qr(np.hstack((np.ones((m, 1)), data.weyl(m, n - 1, 2.0))))[0]


def check_vertices(Y, X, Z, what):
    m, n = Z.m, Z.n
    fail(Y.ndim != 2 or X.ndim != 2 or Y.shape[1] != n or X.shape[1] != m or Y.shape[0] != X.shape[0],
         "{}: shapes {} {}", what, Y.shape, X.shape)
    fail(not np.all(np.abs(X) == 1), "{}: not corners of the hypercube: {}", what, X)
    got = [tuple(int(v) for v in x) for x in X]
    fail(len(set(got)) != len(got), "{}: vertices repeated", what)
    fail(set(got) != Z.signs, "{}: {} vertices, {} expected; missing {}, wrong {}", what, len(got), len(Z.signs),
         sorted(Z.signs - set(got))[:3], sorted(set(got) - Z.signs)[:3])
    close(Y, X.dot(Z.W), 1e-12, what=what + ": vertices and corners")


def probes(Z):
    """(points inside, points outside) with a clear margin."""
    m = Z.m
    c = np.array(list(itertools.product((-1.0, 0.0, 1.0), repeat=m))[::max(1, 3 ** m // 250)])
    Y = c.dot(Z.W)
    V = Z.vertices()
    mids = 0.5 * (V[:, None, :] + V[None, :, :]).reshape(-1, Z.n)[::max(1, len(V) ** 2 // 150)]
    inside = np.vstack((Y, V, 0.5 * V, (1 - 1e-6) * V, mids, 0 * V[:1]))
    cand = np.vstack([f * p for f in (1.0 + 1e-5, 1.05, 1.5, 4.0) for p in (V, Y, mids)] +
                     [1.02 * Z.h[:, None] * Z.normals, -1.02 * Z.h[:, None] * Z.normals, 1e3 * V[:2]])
    out = cand[Z.slack(cand) < -1e-7]
    return inside, out


def check_domain(d, W1, what):
    m, n = W1.shape
    Z = Zonotope(W1)
    fail((d.m, d.n) != (m, n), "{}: dimensions {} instead of {}", what, (d.m, d.n), (m, n))
    check_vertices(d.vertY, d.vertX, Z, what)
    if n == 1:
        fail(d.vertY[0, 0] >= d.vertY[1, 0], "{}: endpoints not in order {}", what, d.vertY)
        fail(d.constraints is not None or d.convhull is not None, "{}: constraints of an interval {}", what, d.convhull)
        return Z
    fun, jac = d.constraints["fun"], d.constraints["jac"]
    fail(d.constraints["type"] != "ineq", "{}: type {}", what, d.constraints["type"])
    inside, out = probes(Z)
    for y in inside:
        fail(np.min(fun(y)) < -1e-9, "{}: constraints {} at {} inside", what, np.min(fun(y)), y)
    for y in out:
        fail(np.min(fun(y)) >= 0, "{}: constraints {} at {} outside", what, np.min(fun(y)), y)
    for y in inside[:3]:
        J = np.asarray(jac(y))
        close(fun(y + 0.25) - fun(y), J.dot(np.full(n, 0.25)), 1e-9, what=what + ": jacobian of the constraints")
    return Z


def catalogue(ctx, m, n):
    for name, W1 in bases(m, n):
        with ctx.case({"m": m, "n": n, "basis": name, "function": "zonotope_vertices"}):
            Z = Zonotope(W1)
            if n > 1:
                fail(domains.nzv(m, n) != len(Z.signs), "nzv({},{}) = {} instead of {}", m, n, domains.nzv(m, n),
                     len(Z.signs))
                Y, X = seeded(lambda: domains.zonotope_vertices(W1))
                check_vertices(Y, X, Z, "zonotope_vertices")
            ctx.state(W1, len(Z.signs))
    for ph in (0.5, 1.5):
        W = data.ortho(m, ph)
        if n > 1:
            W[0] = np.abs(W[0]) + 0  # Subspaces fixes signs only; keep general position
            W = np.linalg.qr(W)[0]
        with ctx.case({"m": m, "n": n, "rotation": ph, "function": "BoundedActiveVariableDomain"}):
            s = make_subspaces(W, n=n)
            d = seeded(lambda: domains.BoundedActiveVariableDomain(s))
            check_domain(d, s.W1, "domain")
            fail(d.subspaces is not s, "domain of another object")
            ctx.state(s.W1, d.vertY[np.lexsort(d.vertY.T)])
            ctx.count("transitions")
            ctx.sample({"m": m, "n": n, "W1": s.W1, "vertices": len(d.vertY)})


def cell_directions(Z):
    """One direction for each cell of the arrangement (all sign patterns)."""
    out = {}
    V = Z.vertices()
    S = sorted(Z.signs)
    # the vertex maximizes every direction of its cell; use sums of the normals of its facets
    for s, v in zip(S, V):
        d = np.zeros(Z.n)
        for nn, h in zip(Z.normals, Z.h):
            for q in (nn, -nn):
                if abs(q.dot(v) - h) < 1e-9:
                    d += q
        if tuple(np.sign(Z.W.dot(d)).astype(int)) == s:
            out[s] = d
    return out


def directed(ctx, W1, nsamples, depth, what):
    """All sequences of cells for the first `depth` directions, then round robin over all cells."""
    Z = Zonotope(W1)
    dirs = cell_directions(Z)
    with ctx.case({"basis": what, "cells": len(dirs)}):
        fail(len(dirs) != len(Z.signs), "no direction for {} cells", len(Z.signs) - len(dirs))
    D = [dirs[k] for k in sorted(dirs)]
    n = Z.n

    def run(ch):
        k = itertools.count()

        def policy(kind, params, shape):
            if kind != "normal" or shape[-1] != n:
                return CTL.real["normal"](size=shape) if kind == "normal" else CTL.real["uniform"](size=shape)
            out = []
            for _ in range(int(np.prod(shape)) // n):
                i = next(k)
                out.append(D[ch.choose(len(D), "cell")] if i < depth else D[i % len(D)])
            return np.array(out)
        with scripted(policy):
            return domains.zonotope_vertices(W1, Nsamples=nsamples)
    gen = explore(run, stats=ctx.stats)
    while True:
        with ctx.case({"basis": what, "Nsamples": nsamples}, timeout=20):
            nxt = next(gen, None)
            if nxt is None:
                break
            choices, (Y, X) = nxt
            check_vertices(Y, X, Z, "directions {}".format(choices))
            ctx.state(what, nsamples, X)


def lopsided(ctx, m, n):
    """Inputs that hardly contribute, and inputs that contribute in almost the same proportions."""
    for small, cols in itertools.product((1e-1, 1e-2, 1e-3, 1e-4), (1, 2, m - n)):
        for how in ("small rows", "rows alike", "rows opposite"):
            G = data.weyl(m, n, 1.3 + cols)
            k = min(cols, m - n)
            if k < 1:
                continue
            if how == "small rows":
                G[m - k:] *= small
            else:
                G[m - k:] = (1 if how == "rows alike" else -1) * (G[:k] + small * data.weyl(k, n, 7.0))
            W1 = np.linalg.qr(G)[0]
            if how != "small rows" and (small < 1e-2 or n > 2):
                continue                 # the cells are too small to be hit by the samples of one batch
            with ctx.case({"m": m, "n": n, "kind": how, "by": small, "rows": k}, timeout=60):
                Z = Zonotope(W1)
                Y, X = seeded(lambda: domains.zonotope_vertices(W1))
                check_vertices(Y, X, Z, "zonotope_vertices")
                W = np.linalg.qr(np.hstack((W1, data.weyl(m, m - n, 5.0))))[0]
                s = make_subspaces(W, n=n)
                d = seeded(lambda: domains.BoundedActiveVariableDomain(s))
                check_domain(d, s.W1, "domain")
                ctx.state(m, n, len(Y))
                ctx.count("transitions")


def stingy(ctx, m, n):
    """Default batch size; the first batches draw a single direction over and over."""
    W1 = data.ortho(m, 0.5)[:, :n]
    Z = Zonotope(W1)
    D = list(cell_directions(Z).values())
    D = D[:6]

    def run(ch):
        k = itertools.count()

        def policy(kind, params, shape):
            if kind == "normal" and shape[-1] == n and next(k) < 3:
                c = ch.choose(len(D) + 1, "batch")
                if c:
                    return np.tile(D[c - 1], (int(np.prod(shape)) // n, 1))
            return CTL.real["normal"](size=shape) if kind == "normal" else CTL.real["uniform"](size=shape)
        np.random.seed(3)
        with scripted(policy):
            return domains.zonotope_vertices(W1)
    gen = explore(run, stats=ctx.stats)
    while True:
        with ctx.case({"m": m, "n": n, "batches": "repeated"}, timeout=30):
            nxt = next(gen, None)
            if nxt is None:
                break
            choices, (Y, X) = nxt
            check_vertices(Y, X, Z, "batches {}".format(choices))
            ctx.state(m, n, len(choices), X)


def intervals(ctx, m, alphabet):
    for v in itertools.product(alphabet, repeat=m):
        if not any(v):
            continue
        w = np.array(v, float).reshape(m, 1)
        for W1 in (w, w / np.linalg.norm(w)):
            with ctx.case({"W1": W1}):
                Y, X = domains.interval_endpoints(W1)
                fail(Y.shape != (2, 1) or X.shape != (2, m), "shapes {} {}", Y.shape, X.shape)
                fail(not np.all(np.abs(X) == 1), "not corners {}", X)
                close(Y, X.dot(W1), 1e-12, what="endpoints and corners")
                r = np.sum(np.abs(W1))
                close(Y, np.array([[-r], [r]]), 1e-12, what="endpoints")
                ctx.state(Y, X)
                ctx.count("transitions")


def histories(ctx, m, depth):
    """partition / compute_boundary sequences against newly built domains."""
    W = data.ortho(m, 0.5)
    new = {}
    s0 = make_subspaces(W, n=1)
    for n in range(1, m + 1):
        s0.partition(n)
        new[n] = np.array(s0.W1)
    for start in new:
        for hist in itertools.product([("p", n) for n in new] + [("b", 0)], repeat=depth):
            with ctx.case({"m": m, "start": start, "history": hist}):
                s = make_subspaces(W, n=start)
                np.random.seed(4)
                d = domains.BoundedActiveVariableDomain(s)
                cur = start
                for h, n in hist + (("b", 0),):
                    ctx.count("transitions")
                    if h == "p":
                        s.partition(n)
                        cur = n
                    else:
                        d.compute_boundary()
                        check_domain(d, new[cur], "after {}".format(hist))
                ctx.state(m, cur, d.vertY[np.lexsort(d.vertY.T)])


def recomputed(ctx):
    """The boundary follows the subspaces object when other data is computed with it."""
    dat = [(2, 1), (3, 2), (3, 1), (4, 2), (4, 3), (2, 2)]
    for hist in itertools.product(range(len(dat)), repeat=2):
        with ctx.case({"computed in turn": [dat[i] for i in hist]}):
            s, d = subspaces.Subspaces(), None
            for i in hist:
                m, n = dat[i]
                s.compute(df=(2.0 ** -np.arange(m) * data.ortho(m, 0.5)).T.copy())
                s.partition(n)
                np.random.seed(4)
                if d is None:
                    d = domains.BoundedActiveVariableDomain(s)
                else:
                    d.compute_boundary()
                check_domain(d, s.W1, "domain")
                u = domains.UnboundedActiveVariableDomain(s)
                fail((u.m, u.n) != (m, n), "unbounded domain has dimensions {}", (u.m, u.n))
                fail(u.vertY is not None or u.constraints is not None, "unbounded domain has a boundary")
                ctx.count("transitions")
            ctx.state(hist)


def same_size(ctx, depth):
    """Subspaces computed anew with the same sizes, and boundaries computed anew, in every order."""
    dat = [(m, n, ph) for m, n in ((3, 2), (3, 1)) for ph in (0.5, 1.5, 2.5)]
    for hist in itertools.product(range(len(dat)), repeat=depth):
        with ctx.case({"computed in turn": [dat[i] for i in hist]}):
            s = subspaces.Subspaces()
            d = other = None
            for i in hist:
                m, n, ph = dat[i]
                before = None if d is None else (np.array(d.vertY), np.array(d.vertX))
                s.compute(df=(2.0 ** -np.arange(m) * data.ortho(m, ph)).T.copy())
                s.partition(n)
                if before is not None:
                    same(d.vertY, before[0], "vertices before the boundary is computed again")
                np.random.seed(4)
                if d is None:
                    d = domains.BoundedActiveVariableDomain(s)
                else:
                    d.compute_boundary()
                check_domain(d, s.W1, "domain")
                np.random.seed(4)
                new = domains.BoundedActiveVariableDomain(s)
                check_domain(new, s.W1, "new domain of the same subspaces")
                if other is not None:
                    Z0 = Zonotope(other[1])
                    check_vertices(other[0].vertY, other[0].vertX, Z0, "domain built before")
                other = (new, np.array(s.W1))
                ctx.count("transitions")
            ctx.state(hist, d.vertY)


def sums(ctx, m, n):
    """Points of the hypercube at its corners, edges and inside are mapped into the domain, none outside is."""
    W1 = data.ortho(m, 0.5)[:, :n]
    with ctx.case({"m": m, "n": n, "vertices": "many"}, timeout=300):
        Z = Zonotope(W1)
        Y, X = seeded(lambda: domains.zonotope_vertices(W1))
        check_vertices(Y, X, Z, "zonotope_vertices")
        s = make_subspaces(data.ortho(m, 0.5), n=n)
        d = seeded(lambda: domains.BoundedActiveVariableDomain(s))
        check_vertices(d.vertY, d.vertX, Zonotope(s.W1), "domain")
        ctx.state(m, n, len(Y))
        ctx.count("transitions", len(Y))


def long_intervals(ctx):
    for m in data.BIGDIM + (257,):
        for ph in (1.0, 2.0, 3.0):
            w = data.weyl(m, 1, ph)
            for v in (w, np.abs(w), -np.abs(w), np.where(np.arange(m).reshape(m, 1) == m - 1, 1.0, 0.0), w * 1e-9, w * 1e9):
                with ctx.case({"m": m, "W1": v}):
                    Y, X = domains.interval_endpoints(v)
                    fail(not np.all(np.abs(X) == 1), "not corners {}", X)
                    r = np.sum(np.abs(v))
                    close(Y / r, np.array([[-1.0], [1.0]]), 1e-12, what="endpoints")
                    close(X.dot(v) / r, Y / r, 1e-12, what="endpoints and corners")
                    ctx.state(m, X)
                    ctx.count("transitions")


def counts(ctx):
    from math import comb
    for m in range(1, 13):
        for n in range(1, m + 1):
            with ctx.case({"nzv": (m, n)}):
                want = 2 * sum(comb(m - 1, i) for i in range(n))
                got = domains.nzv(m, n)
                fail(got != want or not isinstance(got, int), "nzv({},{}) = {!r} instead of {}", m, n, got, want)
                ctx.state(m, n, got)


def jobs(tier):
    big = tier == "thorough"
    J = [Job("vertex counts", counts)]
    for m in range(2, 8 if big else 7):
        for n in range(1, min(m, 5 if big else 4) + 1):
            if (m, n) in ((6, 5), (7, 5), (7, 6)):
                continue
            J.append(Job("catalogue m={} n={}".format(m, n), catalogue, m, n))
    for m, n in ((9, 1), (8, 2), (12, 2), (7, 3)):
        J.append(Job("catalogue m={} n={} ".format(m, n), catalogue, m, n))
    for m, n, ns, dp in ((2, 2, 1, 4), (3, 2, 1, 4), (3, 2, 2, 4), (3, 2, 3, 3), (4, 2, 1, 3), (4, 2, 3, 3), (3, 3, 2, 3),
                         (4, 3, 2, 3 if big else 2)) + (((5, 2, 2, 4), (3, 2, 1, 6)) if big else ()):
        W1 = data.ortho(m, 0.5)[:, :n]
        J.append(Job("directions m={} n={} {} at a time".format(m, n, ns), directed, W1, ns, dp, "m={} n={}".format(m, n)))
    for m, n in ((3, 2), (4, 2), (5, 2), (8, 2), (4, 3), (5, 3)):
        J.append(Job("lopsided m={} n={}".format(m, n), lopsided, m, n))
    for m, n in ((3, 2), (4, 2), (4, 3)):
        J.append(Job("repeated batches m={} n={}".format(m, n), stingy, m, n))
    for m in (1, 2, 3, 4):
        J.append(Job("intervals m={}".format(m), intervals, m, (-2, -0.5, 0, 0.3, 1)))
    J.append(Job("intervals m=6", intervals, 6, (-0.5, 0, 1)))
    J.append(Job("histories m=2", histories, 2, 4))
    J.append(Job("histories m=3", histories, 3, 4 if big else 3))
    J.append(Job("recomputed", recomputed))
    J.append(Job("same size", same_size, 4 if big else 3))
    J.append(Job("long intervals", long_intervals))
    for m, n in ((10, 2), (16, 2), (20, 2), (25, 2), (33, 2), (8, 3), (10, 3), (6, 4)) + (((50, 2), (14, 3), (7, 4)) if big else ()):
        J.append(Job("many vertices m={} n={}".format(m, n), sums, m, n))
    J += history.jobs("C07", tier)
    return J
