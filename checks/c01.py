"""C01: active subspace = eigendecomposition of the weighted sum of outer products."""
import itertools

import numpy as np

import data
import history
from core import Job, close, fail, same
from refs import eigen_ok, outer_mean, outer_mean_fast
from sut import subspaces

LEVEL = "model_checking"
RULE = ("all gradient arrays over a small integer alphabet, all catalogue arrays x sizes x weight vectors, all "
        "permutations of samples; a state is a distinct eigendecomposition, every evaluation compares the "
        "implementation with the matrix summed entry by entry")
ASSUMPTIONS = ["numpy.linalg.eigh is part of the code under test, its result is judged by reconstruction"]


def check(ctx, G, w, what):
    C = outer_mean(G, w[:, 0])
    e, W = subspaces.active_subspace(G, w)
    eigen_ok(e, W, C, what)
    ctx.state(e, np.abs(W[0]))
    ctx.count("transitions")
    return e, W, C


def exhaustive(ctx, M, m, alphabet, walpha):
    for w in itertools.product(walpha, repeat=M):
        wv = np.array(w, float).reshape(M, 1)
        for vals in itertools.product(alphabet, repeat=M * m):
            G = np.array(vals, float).reshape(M, m)
            with ctx.case({"df": G, "weights": wv}):
                check(ctx, G, wv, "active_subspace")


def catalogue(ctx, sizes):
    for M, m in sizes:
        for gname, G in data.arrays(M, m):
            for wname, w in data.weights(M):
                with ctx.case({"M": M, "m": m, "df": gname, "weights": wname}):
                    check(ctx, G, w, "active_subspace")
            if m < 2:
                continue
            with ctx.case({"M": M, "m": m, "df": gname, "compute": "df"}):
                s = subspaces.Subspaces()
                s.compute(df=G)
                C = outer_mean(G, np.ones(M) / M)
                eigen_ok(s.eigenvals, s.eigenvecs, C, "compute(df)")
                t = subspaces.Subspaces()
                t.compute(X=data.weyl(M, m, 2.0), df=G, sstype='AS')
                eigen_ok(t.eigenvals, t.eigenvecs, C, "compute(X, df)")
                t = subspaces.Subspaces()
                t.compute(X=data.weyl(M, m, 2.0), f=data.weyl(M, 1, 4.0), df=G)
                eigen_ok(t.eigenvals, t.eigenvecs, C, "compute(X, f, df)")
                ctx.sample({"M": M, "m": m, "df": G, "eigenvals": s.eigenvals})
            for wname, w in data.weights(M):
                with ctx.case({"M": M, "m": m, "df": gname, "compute": "weights", "weights": wname}):
                    s = subspaces.Subspaces()
                    s.compute(df=G, weights=w)
                    eigen_ok(s.eigenvals, s.eigenvecs, outer_mean(G, w[:, 0]), "compute(df, weights)")


def permutations(ctx, M, m):
    for gname, G in data.arrays(M, m):
        for wname, w in data.weights(M):
            e0, W0 = None, None
            for p in itertools.permutations(range(M)):
                p = list(p)
                with ctx.case({"df": gname, "weights": wname, "order": p}):
                    e, W, C = check(ctx, G[p], w[p], "permuted samples")
                    if e0 is None:
                        e0, W0 = e, W
                    close(e, e0, 1e-9, atol=1e-12 * np.max(np.abs(C)), what="eigenvalues of permuted samples")
                    # projectors on well separated leading spaces do not depend on the order
                    for k in range(1, m):
                        if e0[k - 1, 0] - e0[k, 0] > 1e-3 * e0[0, 0]:
                            close(W[:, :k].dot(W[:, :k].T), W0[:, :k].dot(W0[:, :k].T), 1e-8, what="subspace")


def spectra(ctx):
    """Gradients built to have every spectrum over a small alphabet, rotated: repeated, zero, close eigenvalues."""
    for m in (2, 3, 4):
        for ev in itertools.product((0.0, 1e-9, 0.5, 1.0, 1.0 + 1e-13, 3.0), repeat=m):
            for ph in (None, 0.3):
                Q = np.eye(m) if ph is None else data.ortho(m, ph)
                G = (Q * np.sqrt(np.array(ev))).T.copy()
                with ctx.case({"m": m, "spectrum": ev, "rotated": ph is not None}):
                    e, W, C = check(ctx, G, np.ones((m, 1)), "spectrum")
                    close(e[:, 0], np.sort(ev)[::-1], 1e-10, what="eigenvalues")
        for swap in itertools.permutations(range(m)):
            G = np.diag(np.arange(m, 0, -1.0))[list(swap)][:, list(swap)]
            for s in itertools.product((1, -1), repeat=m):
                with ctx.case({"m": m, "axes": swap, "signs": s}):
                    check(ctx, G * np.array(s), np.ones((m, 1)), "axis aligned")


def big_w(M):
    k = np.arange(M).reshape(M, 1)
    yield "uniform", np.ones((M, 1)) / M
    yield "increasing", (k + 1.0) / M
    yield "integers", (k % 3) * 1.0
    yield "last only", (k == M - 1) * 1.0
    yield "unit", np.ones((M, 1))


def big_g(M, m):
    g = data.weyl(M, m, 0.7)
    yield "generic", g
    yield "growing", g * (1 + np.arange(M).reshape(M, 1))
    z = np.zeros((M, m))
    z[-1] = 1.0
    yield "last row", z
    yield "large last", np.where(np.arange(M).reshape(M, 1) == M - 1, 1e3, 1.0) * g
    yield "blocks", np.where((np.arange(M).reshape(M, 1) // 7) % 2, 1.0, 0.0) * g
    yield "constant", np.tile(g[:1], (M, 1))


def large(ctx, sizes):
    """Numbers of samples and dimensions at which a routine could change its method."""
    for M, m in sizes:
        for gname, G in big_g(M, m):
            for wname, w in big_w(M):
                with ctx.case({"M": M, "m": m, "df": gname, "weights": wname}):
                    C = outer_mean_fast(G, w)
                    e, W = subspaces.active_subspace(G, w)
                    eigen_ok(e, W, C, "active_subspace")
                    s = subspaces.Subspaces()
                    s.compute(df=G, weights=None if wname == "uniform" else w)
                    eigen_ok(s.eigenvals, s.eigenvecs, C, "compute")
                    ctx.state(e, np.abs(W[0]))
                    ctx.count("transitions")


def scales(ctx):
    """The eigendecomposition scales with the gradients and the weights."""
    for m in (2, 3, 5):
        for M in (1, 4, 9):
            for sg in data.SCALES[1:-1]:
                for sw in (1e-12, 1e-6, 1.0, 1e6):
                    for gname, G in (("generic", data.weyl(M, m)), ("integers", np.floor(3 * data.weyl(M, m))),
                                     ("rank one", np.outer(data.weyl(M, 1)[:, 0], data.weyl(1, m, 1.0)[0]))):
                        with ctx.case({"M": M, "m": m, "scale": sg, "weights": sw, "df": gname}):
                            check(ctx, G * sg, np.ones((M, 1)) * sw, "scaled")


def jobs(tier):
    big = tier == "thorough"
    J = [Job("spectra", spectra)]
    J.append(Job("all 1x2", exhaustive, 1, 2, (-2, -1, 0, 1, 3), (1, 0, 0.5)))
    J.append(Job("all 2x2", exhaustive, 2, 2, (-1, 0, 1, 2), (1, 0, 0.5)))
    J.append(Job("all 1x3", exhaustive, 1, 3, (-1, 0, 1, 2), (1, 0, 2)))
    J.append(Job("all 3x1", exhaustive, 3, 1, (-1, 0, 1), (1, 0, 2)))
    J.append(Job("all 3x2", exhaustive, 3, 2, (-1, 0, 1), (1, 0.5)))
    if big:
        J.append(Job("all 2x3", exhaustive, 2, 3, (-1, 0, 1, 2), (1, 0, 0.5)))
        J.append(Job("all 4x2", exhaustive, 4, 2, (-1, 0, 1), (1, 0.5)))
        J.append(Job("all 3x3", exhaustive, 3, 3, (-1, 0, 1), (1,)))
    top = 9 if big else 7
    for m in range(1, top):
        J.append(Job("catalogue m={}".format(m), catalogue, [(M, m) for M in range(1, top)]))
    edge = [(M, m) for m in (2, 3) for M in (16, 31, 33, 64, 100, 128, 200, 255, 257)] + \
        [(20, 10), (5, 12), (16, 16), (40, 20), (3, 24)]
    if big:
        edge += [(M, 2) for M in (500, 512, 513, 1000, 1024, 1025, 2048)] + [(100, 40), (10, 64), (80, 80)]
    for i in range(4):
        J.append(Job("catalogue larger {}".format(i), catalogue, edge[i::4]))
    bigs = [(M, m) for M in data.BIGM for m in (2, 5)] + [(M, m) for m in data.BIGDIM for M in (3, m, 2 * m + 1, 300)]
    bigs += [(30001, 2), (65537, 2), (100003, 3)]
    for i in range(6):
        J.append(Job("large {}".format(i), large, bigs[i::6]))
    J.append(Job("scales", scales))
    for M, m in ((2, 2), (3, 2), (4, 2), (3, 3), (4, 3)) + (((5, 3),) if big else ()):
        J.append(Job("permutations {}x{}".format(M, m), permutations, M, m))
    J += history.jobs("C01", tier)
    return J
