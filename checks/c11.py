"""C11: Gauss rules integrate all polynomials of degree 2N-1 exactly."""
import itertools
from fractions import Fraction as F

import numpy as np

import history
from core import Job, close, fail, same
from sut import designs, quadrature as gq

LEVEL = "model_checking"
RULE = ("every number of points up to the bound; exactness on the complete basis of products of orthonormal polynomials of "
        "degree up to 2N-1; every list of point counts over an alphabet; recurrence coefficients against rational arithmetic "
        "for all parameters of a grid; Jacobi matrices of all sizes; all orders of two calls")
ASSUMPTIONS = ["the basis test stops at N=25 for Gauss-Hermite, where rounding alone exceeds 1e-6; larger rules are compared "
               "with nodes and weights refined in extended precision"]


def beta(kind, k):
    return F(k) if kind == "Hermite" else F(k * k, 4 * k * k - 1)


def orthonormal(x, K, kind):
    """Values of the orthonormal polynomials of degree 0..K."""
    P = [np.ones_like(x)]
    p0 = np.zeros_like(x)
    for k in range(K):
        b1 = np.sqrt(x.dtype.type(float(beta(kind, k + 1))))
        b0 = np.sqrt(x.dtype.type(float(beta(kind, k)))) if k else 0
        p = (x * P[-1] - b0 * p0) / b1
        p0 = P[-1]
        P.append(p)
    return np.array(P)


def reference(kind, N):
    """Nodes by bisection-safe Newton steps in extended precision from symmetric eigenvalues; Christoffel weights."""
    off = np.sqrt(np.array([float(beta(kind, k)) for k in range(1, N)]))
    x = np.linalg.eigvalsh(np.diag(off, 1) + np.diag(off, -1)) if N > 1 else np.zeros(1)
    x = x.astype(np.longdouble)
    for _ in range(3):
        P = orthonormal(x, N, kind)
        s = np.sum(P[:-1] ** 2, axis=0)
        # p_N' p_{N-1} sqrt(beta_N) = sum of squares at a node (Christoffel-Darboux)
        x = x - P[-1] * P[-2] * np.sqrt(np.longdouble(float(beta(kind, N)))) / s
    P = orthonormal(x, N, kind)
    return x.astype(float), (1 / np.sum(P[:-1] ** 2, axis=0)).astype(float)


ONE = {"Hermite": gq.gh1d, "Legendre": gq.gl1d}
TENSOR = {"Hermite": gq.gauss_hermite, "Legendre": gq.gauss_legendre}


def single(ctx, kind, lo, hi):
    for N in range(lo, hi + 1):
        xr, wr = reference(kind, N)
        rules = [("one-dimensional", lambda: ONE[kind](N)), ("by number", lambda: TENSOR[kind](N)),
                 ("by list", lambda: TENSOR[kind]([N])), ("by kind", lambda: gq.g1d(N, kind))]
        for name, f in rules:
            with ctx.case({"rule": kind, "N": N, "function": name}):
                x, w = f()
                fail(np.shape(x) != (N, 1) or np.shape(w) != (N, 1), "shapes {} {}", np.shape(x), np.shape(w))
                x, w = np.array(x)[:, 0], np.array(w)[:, 0]
                fail(not np.all(w[wr > 1e-28] > 0) or np.any(w < 0), "weights not positive: {}", w)
                close(np.sum(w), 1.0, 1e-12, what="sum of the weights")
                fail(np.any(np.diff(x) <= 0), "nodes do not increase: {}", x)
                close(x, -x[::-1], 1e-11, what="symmetry of the nodes")
                close(w, w[::-1], 1e-11, what="symmetry of the weights")
                if kind == "Legendre":
                    fail(np.max(np.abs(x)) >= 1, "nodes outside (-1,1): {}", x)
                close(x, xr, 1e-11, what="nodes")
                close(w, wr, 1e-11, what="weights")
                if N <= 25 or kind == "Legendre":
                    P = orthonormal(x, N, kind)
                    G = (P * w).dot(P.T)
                    for j, k in itertools.product(range(N + 1), repeat=2):
                        if j + k > 2 * N - 1:
                            continue
                        ctx.count("transitions")
                        tol = 1e-10 if kind == "Legendre" or N <= 15 else 1e-5
                        fail(abs(G[j, k] - (j == k)) > tol, "product of polynomials of degree {} and {} integrates to {}",
                             j, k, float(G[j, k]))
                ctx.state(kind, N, x, w)
                if N == 4:
                    ctx.sample({"rule": kind, "N": N, "nodes": x, "weights": w})


def large(ctx, kind, numbers):
    """Large rules: nodes, weights and (Legendre) the products of all pairs of polynomials."""
    for N in numbers:
        xr, wr = reference(kind, N)
        for name, f in (("one-dimensional", lambda: ONE[kind](N)), ("by number", lambda: TENSOR[kind](N)),
                        ("by list", lambda: TENSOR[kind]([N, 1]))):
            with ctx.case({"rule": kind, "N": N, "function": name}):
                x, w = f()
                d = 2 if name == "by list" else 1
                fail(np.shape(x) != (N, d) or np.shape(w) != (N, 1), "shapes {} {}", np.shape(x), np.shape(w))
                if d == 2:
                    close(x[:, 1], np.zeros(N), 1e-15, what="second coordinate")
                x, w = np.array(x)[:, 0], np.array(w)[:, 0]
                fail(np.any(w < 0) or not np.all(w[wr > 1e-28] > 0), "weights not positive")
                fail(np.any(np.diff(x) <= 0), "nodes do not increase")
                close(x, xr, 1e-11, what="nodes")
                close(w, wr, 1e-11, what="weights")
                close(w[wr > 1e-5] / wr[wr > 1e-5], np.ones(np.sum(wr > 1e-5)), 1e-7, what="weights, relative")
                close(np.sum(w), 1.0, 1e-12, what="sum of the weights")
                if kind == "Legendre":
                    P = orthonormal(x, N, kind)
                    G = (P * w).dot(P.T) - np.eye(N + 1)
                    G[N, N] = 0
                    fail(np.max(np.abs(G)) > 1e-9, "product of polynomials of degree {} is off by {}",
                         np.unravel_index(np.argmax(np.abs(G)), G.shape), float(np.max(np.abs(G))))
                ctx.state(kind, N, x, w)
                ctx.count("transitions", N * N)


def tensor_sizes(ctx, kind, lists):
    """Larger and longer lists of point counts, as lists and as tuples and arrays of whole numbers."""
    for L in lists:
        one = {k: reference(kind, k) for k in set(L)}
        X = np.array(list(itertools.product(*[one[k][0] for k in L])))
        W = np.array([np.prod(t) for t in itertools.product(*[one[k][1] for k in L])]).reshape(-1, 1)
        with ctx.case({"rule": kind, "points": L}):
            x, w = TENSOR[kind](list(L))
            close(x, X, 1e-11, what="nodes")
            close(w, W, 1e-11, what="weights")
            big = W[:, 0] > 1e-6 * np.max(W)
            close(w[big] / W[big], np.ones((int(np.sum(big)), 1)), 1e-8, what="weights, relative")
            close(np.sum(w), 1.0, 1e-12, what="sum of the weights")
            ctx.state(kind, L, x[:20], w[:20])
            ctx.count("transitions", len(w))


def tensor(ctx, kind, alphabet, lengths):
    for d in lengths:
        for L in itertools.product(alphabet, repeat=d):
            with ctx.case({"rule": kind, "points": L}):
                keep = list(L)
                x, w = TENSOR[kind](keep)
                fail(tuple(keep) != L, "the list was changed to {}", keep)
                n = int(np.prod(L))
                fail(np.shape(x) != (n, d) or np.shape(w) != (n, 1), "shapes {} {}", np.shape(x), np.shape(w))
                one = [reference(kind, k) for k in L]
                idx = list(itertools.product(*[range(k) for k in L]))
                X = np.array([[one[j][0][i[j]] for j in range(d)] for i in idx])
                W = np.array([[np.prod([one[j][1][i[j]] for j in range(d)])] for i in idx])
                close(x, X, 1e-11, what="nodes")
                close(w, W, 1e-11, what="weights")
                fail(not np.all(np.asarray(w) > 0), "weights not positive: {}", w)
                close(np.sum(w), 1.0, 1e-12, what="sum of the weights")
                if kind == "Hermite":
                    same(designs.gauss_hermite_design(list(L)), x, "design")
                ctx.state(kind, L, x, w)
                ctx.count("transitions", n)


def beta_moments(a, b, K):
    """Moments of the Jacobi weight on (0,1), t=(1+x)/2, normalized: rational for rational a, b."""
    m = [F(1)]
    for i in range(K):
        m.append(m[-1] * (b + 1 + i) / (a + b + 2 + i))
    return m


def chebyshev(m, n):
    """Recurrence coefficients of the first n monic orthogonal polynomials from moments, exactly."""
    al, be = [m[1] / m[0]], [m[0]]
    prev = [F(0)] * len(m)
    cur = list(m)
    for k in range(1, n):
        nxt = [F(0)] * len(m)
        for l in range(k, 2 * n - k):
            nxt[l] = cur[l + 1] - al[k - 1] * cur[l] - be[k - 1] * prev[l]
        al.append(nxt[k + 1] / nxt[k] - cur[k] / cur[k - 1])
        be.append(nxt[k] / cur[k - 1])
        prev, cur = cur, nxt
    return al, be


PARAMS = [F(0), F(1), F(2), F(1, 2), F(-1, 2), F(3, 2), F(-1, 4)]


def jacobi(ctx, N):
    for a, b in itertools.product(PARAMS, repeat=2):
        al, be = chebyshev(beta_moments(a, b, 2 * N + 4), N + 1)
        for l, r in ((F(-1), F(1)), (F(0), F(1)), (F(-3), F(5)), (F(1, 2), F(3, 4)), (F(2), F(10)), (F(-7), F(-6))):
            for ints in (False, True):
                if ints and any(v.denominator != 1 for v in (l, r, a, b)):
                    continue
                with ctx.case({"r_jacobi": N, "interval": [str(l), str(r)], "parameters": [str(a), str(b)], "ints": ints}):
                    conv = int if ints else float
                    ab = gq.r_jacobi(N, conv(l), conv(r), conv(a), conv(b))
                    fail(np.shape(ab) != (N + 1, 2), "shape {}", np.shape(ab))
                    want = [[float(l + (r - l) * al[k]), float((r - l) ** 2 * be[k]) if k else 1.0] for k in range(N + 1)]
                    close(ab, np.array(want), 1e-12, what="coefficients")
                    ctx.state(N, ab)
                    ctx.count("transitions", N)
                    J = gq.jacobi_matrix(ab)
                    check_matrix(J, ab)
                    if N >= 2:
                        e = np.linalg.eigvalsh(J)
                        fail(e[0] <= float(l) or e[-1] >= float(r), "nodes {} outside the interval", e)


def check_matrix(J, ab):
    n = ab.shape[0] - 1
    if n == 0:
        close(J, ab[0, 0], 0, 0, what="matrix of one row")
        return
    T = np.diag(ab[:n, 0])
    for i in range(1, n):
        T[i, i - 1] = T[i - 1, i] = np.sqrt(ab[i, 1])
    fail(np.shape(J) != (n, n), "Jacobi matrix has shape {}", np.shape(J))
    same(J, np.asarray(J).T, "symmetry of the Jacobi matrix")
    close(J, T, 1e-15, 1e-15, what="Jacobi matrix")


def matrices(ctx):
    for n in range(1, 9):
        for a in itertools.product((-1.5, 0.0, 2.0), repeat=min(n, 4)):
            for b in itertools.product((0.25, 3.0), repeat=min(n, 4)):
                ab = np.column_stack((np.resize(a, n), np.resize(b, n)))
                with ctx.case({"ab": ab}):
                    keep = ab.copy()
                    check_matrix(gq.jacobi_matrix(ab), ab)
                    same(ab, keep, "argument")
                    ctx.state(ab)
                    ctx.count("transitions")


def hermite(ctx, top):
    for N in range(2, top + 1):
        with ctx.case({"r_hermite": N}):
            ab = gq.r_hermite(N)
            fail(np.shape(ab) != (N + 1, 2), "shape {}", np.shape(ab))
            same(np.asarray(ab, float), np.column_stack((np.zeros(N + 1), np.r_[1.0, np.arange(1.0, N + 1)])), "coefficients")
            ctx.state(N, np.asarray(ab))
    with ctx.case({"r_hermite": 1}):
        ab = gq.r_hermite(1)
        same(ab[0], np.array([0.0, 1.0]), "first coefficients")


def orders(ctx):
    """Rules do not depend on which rule was built before, and changing a result changes no later one."""
    alphabet = [("Hermite", [2]), ("Hermite", [3, 2]), ("Legendre", [3]), ("Legendre", [2, 3]), ("Hermite", [1]),
                ("Legendre", [1, 2])]
    first = {}
    for i, (k, L) in enumerate(alphabet):
        first[i] = [np.array(v) for v in TENSOR[k](list(L))]
    for hist in itertools.product(range(len(alphabet)), repeat=3):
        with ctx.case({"calls": [alphabet[i] for i in hist]}):
            for i in hist:
                k, L = alphabet[i]
                x, w = TENSOR[k](list(L))
                same(x, first[i][0], "nodes")
                same(w, first[i][1], "weights")
                x[...] = 7.0
                w[...] = -1.0
                ctx.count("transitions")
            ctx.state(hist)


def jobs(tier):
    big = tier == "thorough"
    J = [Job("matrices", matrices), Job("hermite coefficients", hermite, 100), Job("orders", orders)]
    for kind in ("Hermite", "Legendre"):
        for lo in range(1, 120 if big else 60, 15):
            J.append(Job("{} {}..{}".format(kind, lo, lo + 14), single, kind, lo, lo + 14))
        J.append(Job("tensor {} up to 3".format(kind), tensor, kind, (1, 2, 3, 4, 5), (1, 2, 3)))
        J.append(Job("tensor {} 4".format(kind), tensor, kind, (1, 2, 3, 4) if big else (1, 2, 3), (4,)))
        J.append(Job("tensor {} wide".format(kind), tensor, kind, (1, 7, 10, 12), (2,)))
        if big:
            J.append(Job("tensor {} 5".format(kind), tensor, kind, (1, 2, 3), (5,)))
        J.append(Job("large {}".format(kind), large, kind, (61, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 180, 181, 199, 200, 201, 250, 256,
                                                            257) + ((300, 301, 400) if kind == "Legendre" or big else ())
                     + ((401, 500, 512, 513) if big else ())))
        J.append(Job("tensor {} sizes".format(kind), tensor_sizes, kind, [
            (20,), (16, 17), (33, 2), (2, 33), (30, 31), (10, 11, 12), (1, 1, 1, 1, 1, 1, 1, 1), (2,) * 8, (2, 1, 2, 1, 2, 1, 2), (3,) * 6,
            (1, 40), (40, 1, 2), (64, 65), (5, 4, 3, 2, 1, 6), (100, 100), (2,) * 12, (1, 2, 3, 4, 5, 6), (21, 22, 23)]))
    for N in (1, 2, 3, 5, 8) + ((12, 16, 20) if big else ()):
        J.append(Job("jacobi coefficients {}".format(N), jacobi, N))
    J += history.jobs("C11", tier)
    return J
