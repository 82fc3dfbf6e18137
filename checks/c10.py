"""C10: normalizers are exact inverse affine maps onto the standard domain."""
import itertools

import numpy as np

import data
import history
from core import Job, close, fail, same
from sut import misc

LEVEL = "model_checking"
RULE = ("bounds and covariances (diagonal, correlated, scaled) x all degenerate point sets; every word of normalize and "
        "unnormalize up to length 4 on one object; every point alone and with others; all affine combinations of corners")
ASSUMPTIONS = ["upper bounds exceed lower bounds; covariances are positive definite, with condition number up to 1e6 for dependent inputs"]


def bounds(m):
    w = data.weyl(2, m, 1.0)
    yield "standard", -np.ones(m), np.ones(m)
    yield "unit", np.zeros(m), np.ones(m)
    yield "different", np.minimum(w[0], w[1]) - 0.3, np.maximum(w[0], w[1]) + 0.1
    yield "scales", 10.0 ** (np.arange(m) % 5 - 2), 10.0 ** (np.arange(m) % 5 - 2) * (np.arange(m) + 3.0)
    yield "negative", -5.0 - np.arange(m), -4.0 + 0.5 * np.arange(m) / m
    yield "integers", np.arange(m), np.arange(m) + 1 + np.arange(m) % 3
    yield "narrow", np.full(m, 3.0), np.full(m, 3.0) + 1e-6 * (1 + np.arange(m))


def covariances(m):
    w = data.weyl(m, m, 2.0)
    yield "identity", np.eye(m)
    yield "diagonal", np.diag(10.0 ** (np.arange(m) % 4 - 1.0))
    yield "equal correlation", 0.6 * np.ones((m, m)) + 0.4 * np.eye(m)
    yield "generic", w.dot(w.T) + 0.5 * np.eye(m)
    T = np.eye(m) + np.diag(np.full(m - 1, -0.45), 1) + np.diag(np.full(m - 1, -0.45), -1)
    yield "banded", T
    s = 10.0 ** (np.arange(m) % 3)
    yield "scaled", s[:, None] * T * s
    yield "integers", (np.eye(m) * 2 + np.ones((m, m))).astype(int)


def shapes(v):
    yield "row", v.reshape(1, -1)
    yield "column", v.reshape(-1, 1)
    yield "flat", v


def bounded(ctx, m, Ms):
    for nb, lb, ub in bounds(m):
        for sh, l in shapes(lb):
            u = ub.reshape(l.shape)
            with ctx.case({"m": m, "bounds": nb, "given as": sh}):
                b = misc.BoundedNormalizer(l, u)
                corners = np.array(list(itertools.product((0.0, 0.25, 0.5, 1.0), repeat=min(m, 4))))
                T = np.tile(corners, (1, 2 * m))[:, :m]
                X = lb * (1 - T) + ub * T
                w = (ub - lb) * 1.0
                cond = np.max(np.maximum(np.abs(lb), np.abs(ub)) / w)
                close(b.normalize(X), 2 * T - 1, 1e-13 * max(cond, 1), what="normalize")
                close((b.unnormalize(2 * T - 1) - lb) / w, T, 1e-13 * max(cond, 1), what="unnormalize")
                same(b.normalize(lb.reshape(1, m)), -np.ones((1, m)), "lower bounds")
                close(b.normalize(ub.reshape(1, m)), np.ones((1, m)), 1e-15, what="upper bounds")
                ctx.state(nb, sh, b.normalize(X))
        for M in Ms:
            for nx, X in data.arrays(M, m):
                with ctx.case({"m": m, "bounds": nb, "X": nx, "M": M}):
                    b = misc.BoundedNormalizer(lb.reshape(1, m), ub.reshape(1, m))
                    words(ctx, b, X, np.max(np.maximum(np.abs(lb), np.abs(ub)) / (ub - lb)),
                          lambda x: 2 * ((x - lb) * 1.0 / (ub - lb)) - 1, lambda x: lb + 0.5 * (x + 1) * (ub - lb))
        ctx.sample({"lb": lb, "ub": ub})


def mixed(ctx, m):
    """Every combination of ordinary and special bounds per input."""
    A = ((-1.0, 1.0), (0.0, 1.0), (-1.0, 3.0), (-2.5, -0.5), (0.0, 1e-3), (5.0, 1e4))
    T = np.array(list(itertools.product((0.0, 0.25, 1.0), repeat=m)))
    for pick in itertools.product(A, repeat=m):
        lb, ub = np.array([p[0] for p in pick]), np.array([p[1] for p in pick])
        with ctx.case({"bounds": pick}):
            b = misc.BoundedNormalizer(lb.reshape(1, m), ub.reshape(1, m))
            X = lb + T * (ub - lb)
            close(b.normalize(X), 2 * T - 1, 1e-12, what="normalize")
            close((b.unnormalize(2 * T - 1) - lb) / (ub - lb), T, 1e-12, what="unnormalize")
            Z = 3.0 * T - 4.5
            close(b.normalize(Z), 2 * (Z - lb) / (ub - lb) - 1, 1e-12, what="normalize outside")
            close(b.unnormalize(Z), lb + 0.5 * (Z + 1) * (ub - lb), 1e-12, what="unnormalize outside")
            ctx.state(pick)
            ctx.count("transitions", 4)
    V = (1.0, 1e-8, 4.0)
    for var in itertools.product(V, repeat=m):
        for mean in itertools.product((0.0, 1.0), repeat=m):
            for rho in (0.0, 0.5, -0.2):
                with ctx.case({"variances": var, "means": mean, "correlation": rho}):
                    sd = np.sqrt(np.array(var))
                    R = rho * np.ones((m, m)) + (1 - rho) * np.eye(m)
                    mu = np.array(mean)
                    u = misc.UnboundedNormalizer(mu.reshape(1, m), sd[:, None] * R * sd)
                    D = (u.unnormalize(np.eye(m)) - mu) / sd
                    close(D.T.dot(D), R, 1e-9, what="covariance of standard points")
                    X = u.unnormalize(2 * T - 1)
                    close(u.normalize(X), 2 * T - 1, 1e-7, what="back")
                    E = (X - mu) / sd
                    close(E.dot(np.linalg.solve(R, E.T)), (2 * T - 1).dot((2 * T - 1).T), 1e-6, what="distances")
                    ctx.state(var, mean, rho)
                    ctx.count("transitions", 3)


def words(ctx, b, X, cond, ref_n, ref_u):
    """All words of the two operations on one object, and each point on its own."""
    for word in data.words("nu", 4, 1):
        got, want, sc = X, np.array(X, float), 1.0
        for c in word:
            got = b.normalize(got) if c == "n" else b.unnormalize(got)
            want = ref_n(want) if c == "n" else ref_u(want)
            sc = max(sc, np.max(np.abs(want)) if want.size else 1.0)
            ctx.count("transitions")
            fail(got.shape != X.shape, "{} has shape {}", word, got.shape)
        close(got / sc, want / sc, 1e-12 * max(cond, 1), what="word {}".format("".join(word)))
        if word in (("n", "u"), ("u", "n")):
            scx = max(np.max(np.abs(X)), 1.0) * max(cond, 1)
            close(got / scx, X / scx, 1e-11, what="word {} gives the points back".format("".join(word)))
        if len(word) == 1:
            for i in range(X.shape[0]):
                one = b.normalize(X[i:i + 1]) if word == ("n",) else b.unnormalize(X[i:i + 1])
                close(one[0] / sc, got[i] / sc, 1e-13 * max(cond, 1), what="point {} alone".format(i))
        ctx.state(word, got / sc)


def unbounded(ctx, m, Ms):
    means = [("zero", np.zeros(m)), ("generic", 3 * data.weyl(1, m, 4.0)[0]), ("integers", np.arange(m) - 1)]
    for nc, C in covariances(m):
        cond = np.linalg.cond(C)
        R = np.linalg.cholesky(np.linalg.inv(C))          # another factor of the inverse
        for nm, mu in means:
            for sh, v in shapes(mu):
                with ctx.case({"m": m, "covariance": nc, "mean": nm, "given as": sh}):
                    u = misc.UnboundedNormalizer(v, C)
                    pts = np.vstack((np.eye(m), -np.eye(m)))
                    X = u.unnormalize(pts)
                    dev = X - mu
                    close(np.mean(X, axis=0), mu.astype(float), 1e-12, atol=1e-12 * np.sqrt(np.max(np.abs(C))),
                          what="mean of standard points")
                    close(dev.T.dot(dev) / 2, C.astype(float), 1e-11, what="covariance of standard points")
                    X = mu + 2 * data.weyl(6, m, 6.0) * np.sqrt(np.diag(C))
                    N = u.normalize(X)
                    D = (X - mu)
                    close(N.dot(N.T), D.dot(np.linalg.solve(C.astype(float), D.T)), 1e-11 * cond,
                          what="distances of normalized points")
                    ctx.state(nc, nm, sh, N)
            for M in Ms:
                for nx, X in data.arrays(M, m):
                    with ctx.case({"m": m, "covariance": nc, "mean": nm, "X": nx, "M": M}):
                        u = misc.UnboundedNormalizer(mu.reshape(1, m), C)
                        L = u.unnormalize(np.eye(m)) - u.unnormalize(np.zeros((1, m)))
                        words(ctx, u, X, cond, lambda x: np.linalg.solve(L.T, (x - mu).T).T, lambda x: x.dot(L) + mu)


def widths(ctx, m):
    """Bounds of every magnitude of width, next to bounds of ordinary width, close to and far from zero."""
    T = np.vstack((np.tile(np.array([[0.0], [0.25], [0.5], [1.0]]), (1, m)), (data.weyl(7, m, 1.2) + 1) / 2))
    for wd in data.SCALES:
        for base in (0.0, 0.125, -3.0):
            for where in range(-1, m):
                w = np.ones(m)
                if where < 0:
                    w[:] = wd
                else:
                    w[where] = wd
                lb = np.full(m, base)
                ub = lb + w
                if not np.all(ub > lb) or np.any((ub - lb) < 1e-9 * np.abs(base)):
                    continue
                w = ub - lb
                with ctx.case({"m": m, "width": wd, "lower": base, "where": where}):
                    b = misc.BoundedNormalizer(lb.reshape(1, m), ub.reshape(1, m))
                    X = lb + T * w
                    tol = 1e-13 + 8e-16 * np.max(np.abs(base) / w)
                    close(b.normalize(X), 2 * (X - lb) / w - 1, tol, atol=tol, what="normalize")
                    close((b.unnormalize(2 * T - 1) - lb) / w, T, 4 * tol, atol=4 * tol, what="unnormalize")
                    close(b.normalize(b.unnormalize(2 * T - 1)), 2 * T - 1, 8 * tol, atol=8 * tol, what="back")
                    fail(np.any(b.normalize(X[1:2]) == b.normalize(X[2:3])), "two points normalized to one")
                    ctx.state(wd, base, where)
                    ctx.count("transitions", 3)


def cov_scales(ctx, m):
    for nc, C in covariances(m):
        C = C.astype(float)
        cond = np.linalg.cond(C)
        for sc in data.SCALES[1:-1]:
            for mu in (np.zeros(m), 0.5 * np.sqrt(sc) * np.arange(1, m + 1)):
                with ctx.case({"m": m, "covariance": nc, "times": sc, "mean": mu}):
                    u = misc.UnboundedNormalizer(mu.reshape(1, m), C * sc)
                    Z = 2 * data.weyl(6, m, 6.0)
                    X = u.unnormalize(Z)
                    dev = u.unnormalize(np.eye(m)) - mu
                    close(dev.T.dot(dev) / sc, C, 1e-11, what="covariance of standard points")
                    close(u.normalize(X), Z, 1e-11 * cond, what="back")
                    D = X - mu
                    close(D.dot(np.linalg.solve(C, D.T)) / sc, Z.dot(Z.T), 1e-11 * cond, what="distances")
                    ctx.state(nc, sc, X / np.sqrt(sc))
                    ctx.count("transitions", 3)


def graded(ctx, m):
    """Independent inputs whose variances differ by many orders of magnitude."""
    for sd in itertools.product((1.0, 1e-4, 1e-8, 1e6), repeat=m):
        sd = np.array(sd)
        for mu in (np.zeros(m), sd * (1 + np.arange(m))):
            with ctx.case({"m": m, "deviations": sd, "mean": mu}):
                u = misc.UnboundedNormalizer(mu.reshape(m, 1), np.diag(sd ** 2))
                Z = 2 * data.weyl(6, m, 6.0)
                X = u.unnormalize(Z)
                dev = (u.unnormalize(np.eye(m)) - mu) / sd
                close(dev.T.dot(dev), np.eye(m), 1e-9, what="covariance of standard points")
                close(u.normalize(X), Z, 1e-8, what="back")
                Y = mu + sd * data.weyl(5, m, 3.0)
                close((u.unnormalize(u.normalize(Y)) - mu) / sd, (Y - mu) / sd, 1e-8, what="back")
                D = (X - mu) / sd
                close(D.dot(D.T), Z.dot(Z.T), 1e-8, what="distances")
                ctx.state(sd, mu)
                ctx.count("transitions", 4)


def many(ctx, sizes):
    """Many points, many inputs, single points far away."""
    for M, m in sizes:
        lb, ub = -1.0 - np.arange(m) % 4, 2.0 + np.arange(m) % 7
        w = data.weyl(m, m, 2.0)
        C = w.dot(w.T) / m + 0.5 * np.eye(m)
        mu = data.weyl(1, m, 4.0)
        for sx in (1.0, 1e4, 1e9):
            with ctx.case({"M": M, "m": m, "magnitude": sx}):
                X = data.weyl(M, m, 0.4) * sx
                b = misc.BoundedNormalizer(lb.reshape(1, m), ub.reshape(1, m))
                N, U = b.normalize(X), b.unnormalize(X)
                close(N / sx, (2 * (X - lb) / (ub - lb) - 1) / sx, 1e-12, what="normalize")
                close(U / sx, (lb + 0.5 * (X + 1) * (ub - lb)) / sx, 1e-12, what="unnormalize")
                close(b.unnormalize(N) / sx, X / sx, 1e-12, what="back")
                u = misc.UnboundedNormalizer(mu, C)
                N, U = u.normalize(X), u.unnormalize(X)
                L = u.unnormalize(np.eye(m)) - mu
                close(L.T.dot(L), C, 1e-11, what="covariance of standard points")
                close(U / sx, (X.dot(L) + mu) / sx, 1e-11, what="unnormalize")
                close(u.unnormalize(N) / sx, X / sx, 1e-9, what="back")
                close(u.normalize(U) / sx, X / sx, 1e-9, what="back")
                ctx.state(M, m, sx, N[:2] / sx)
                ctx.count("transitions", 6)


def jobs(tier):
    big = tier == "thorough"
    J = []
    for m in (1, 2, 3, 5) + ((4, 7, 9) if big else ()):
        J.append(Job("bounded m={}".format(m), bounded, m, (1, 2, 3, m) if m > 3 else (1, 2, 3, 5)))
        J.append(Job("unbounded m={}".format(m), unbounded, m, (1, 2, 3, m) if m > 3 else (1, 2, 3)))
    for m in (1, 2, 3, 4):
        J.append(Job("mixed bounds m={}".format(m), mixed, m))
    for m in (1, 2, 3, 6):
        J.append(Job("widths m={}".format(m), widths, m))
        if m < 6:
            J.append(Job("graded m={}".format(m), graded, m))
        J.append(Job("covariance scales m={}".format(m), cov_scales, m))
    sizes = [(M, m) for M in data.BIGM for m in (1, 2, 4)] + [(M, m) for m in data.BIGDIM for M in (1, 2, m, 130)]
    for i in range(3):
        J.append(Job("many points {}".format(i), many, sizes[i::3]))
    J += history.jobs("C10", tier)
    return J
