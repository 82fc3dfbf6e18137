"""C16: radial basis surfaces reproduce polynomials and fit noise-free data."""
import itertools
from math import comb

import numpy as np

import data
import history
from core import Job, close, fail, same
from refs import monomial_gradient, monomials, multi_indices
from sut import rs

LEVEL = "model_checking"
RULE = ("every number of inputs and degree up to the bound x data shapes x noise variances from 0 to 1e6 (also mixed) x "
        "eigenvalues over six orders of magnitude; every selection and order of prediction points; all histories of trainings "
        "up to length 3; reference: the defining equations with the stored coefficients")
ASSUMPTIONS = ["training points are distinct and determine the polynomial part",
               "the shape parameter chosen by the maximum likelihood heuristic is taken as given"]


def index(r, m):
    return [tuple(int(v) for v in i) for i in rs.polynomial_bases(np.ones((1, m)), r.N)[1]]


def kernel(T, X, ell):
    d = T[:, None, :] - X[None, :, :]
    return np.exp(-np.sum(d * d / ell, axis=2)), d


def formula(r, T):
    """Value and gradient from the stored coefficients, with the sum of absolute terms as scale of rounding."""
    X = np.asarray(r.X, float)
    m = X.shape[1]
    ell = np.ravel(r.ell)
    idx = index(r, m)
    rw, pw = np.ravel(r.radial_weights), np.ravel(r.poly_weights)
    K, d = kernel(T, X, ell)
    B = monomials(T, idx)
    val = K.dot(rw) + B.dot(pw)
    sc = K.dot(np.abs(rw)) + np.abs(B).dot(np.abs(pw))
    grad = np.zeros(T.shape)
    gsc = np.zeros(T.shape)
    for k, a in enumerate(idx):
        g = monomial_gradient(T, a)
        grad += pw[k] * g
        gsc += np.abs(pw[k] * g)
    for j in range(m):
        t = -2 * d[:, :, j] / ell[j] * K
        grad[:, j] += t.dot(rw)
        gsc[:, j] += np.abs(t).dot(np.abs(rw))
    return val.reshape(-1, 1), grad, sc.reshape(-1, 1), gsc


def near(a, b, sc, rel, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    fail(a.shape != b.shape, "{}: shape {} instead of {}", what, a.shape, b.shape)
    bad = np.abs(a - b) > rel * sc + 1e-300
    fail(np.any(bad) or not np.all(np.isfinite(a)), "{}: {} instead of {}", what, a, b)


def check_surface(ctx, r, X, f, v, e, what):
    M, m = X.shape
    f = np.asarray(f, float)
    ell = np.ravel(r.ell)
    fail(ell.shape != (m,) or not np.all(ell > 0), "{}: length scales {}", what, r.ell)
    if e is None:
        close(ell / ell[0], np.ones(m), 1e-12, what=what + ": isotropic length scales")
        noise = np.full(M, 1e-6) if v is None else np.ravel(v)
        g = ell[0]
    else:
        e = np.ravel(e)
        close(ell * e[:m] / (ell[0] * e[0]), np.ones(m), 1e-10, what=what + ": length scales and eigenvalues")
        g = ell[0] * e[0] / np.sum(e)
        noise = np.full(M, g * np.sum(e[m:])) if v is None else np.ravel(v)
    fail(not 0.99e-10 <= g <= 10.1, "{}: scale of the length scales {}", what, g)
    noise = np.maximum(noise, 1e-6)
    rw = np.ravel(r.radial_weights)
    idx = index(r, m)
    fail(sorted(idx) != sorted(multi_indices(m, r.N)), "{}: monomials {}", what, idx)
    fail(rw.shape != (M,) or np.ravel(r.poly_weights).shape != (len(idx),), "{}: shapes of the coefficients", what)
    B = monomials(X, idx)
    near(B.T.dot(rw), np.zeros(len(idx)), np.abs(B).T.dot(np.abs(rw)) + np.max(np.abs(f)), 1e-9,
         what + ": radial coefficients orthogonal to polynomials")
    P = r.predict(X)[0]
    val, grad, sc, gsc = formula(r, X)
    near(f[:, 0] - P[:, 0], noise * rw, sc[:, 0] + np.max(np.abs(f)) + noise * np.abs(rw), 1e-9, what + ": residual and noise")
    T = np.vstack((1.2 * data.weyl(3, m, 8.0), X[:2], 0.5 * (X[:1] + X[-1:]), np.zeros((1, m)), 30 * np.ones((1, m))))
    val, grad, sc, gsc = formula(r, T)
    P, G = r.predict(T, compgrad=True)
    near(P, val, sc, 1e-11, what + ": prediction")
    near(G, grad, gsc + 1e-12 * np.max(gsc), 1e-11, what + ": gradient")
    P2, G2 = r.predict(T)
    near(P2, P, sc, 1e-13, what + ": prediction without gradient")
    fail(G2 is not None, "{}: gradient not asked for", what)
    near(r(T), P, sc, 1e-13, what + ": call")
    near(r.gradient(T), G, gsc, 1e-13, what + ": gradient method")
    same(r.X, X, what + ": stored inputs")
    same(r.f, f, what + ": stored outputs")
    ctx.state(what, P, G)
    ctx.count("transitions", M)


def noises(M):
    k = np.arange(M).reshape(M, 1)
    yield "none", None
    yield "zeros", np.zeros((M, 1))
    yield "tiny", np.full((M, 1), 1e-12)
    yield "1e-7 to 1e-5", 10.0 ** (-7 + 2.0 * k / max(M - 1, 1))
    yield "1e-3", np.full((M, 1), 1e-3)
    yield "large", np.full((M, 1), 1e6)
    yield "some zero", np.where(k % 2, 0.0, 0.1)
    yield "flat", (0.01 + 0.001 * k)[:, 0]
    yield "integers", (k % 2).astype(int)


def eigens(m):
    yield "none", None
    yield "decay", 4.0 ** -np.arange(m + 2.0).reshape(-1, 1)
    yield "equal", np.ones((m, 1))
    yield "nearly equal", 3.0 - 1e-3 * np.arange(m + 1).reshape(-1, 1)
    yield "wide", 10.0 ** (3 - 2.0 * np.arange(m + 1)).reshape(-1, 1)
    yield "tiny", 1e-8 * (m + 1.0 - np.arange(m + 1)).reshape(-1, 1)
    yield "huge", 1e8 * 2.0 ** -np.arange(m + 3.0).reshape(-1, 1)
    yield "zero rest", np.r_[2.0 ** -np.arange(m), np.zeros(2)].reshape(-1, 1)


def targets(X):
    M, m = X.shape
    yield "waves", np.sin(3 * np.sum(X, axis=1, keepdims=True)) + X[:, :1] ** 3
    yield "hash", data.weyl(M, 1, 5.0)
    yield "step", np.where(X[:, :1] > 0, 1.0, -1.0)
    yield "offset", 1e4 + np.cos(X[:, :1])
    yield "small", 1e-5 * np.exp(X[:, :1])


def fits(ctx, m, N, extras):
    p = comb(N + m, m)
    for extra in extras:
        X = data.weyl(p + extra, m, 2.0)
        if np.linalg.cond(monomials(X, multi_indices(m, N))) > 1e5:
            ctx.count("skipped")
            continue
        for (nf, f), (nv, v), (ne, e) in itertools.product(targets(X), noises(len(X)), eigens(m)):
            if extra and nf in ("step", "small") and nv not in ("none", "zeros"):
                continue
            with ctx.case({"m": m, "N": N, "M": len(X), "f": nf, "noise": nv, "eigenvalues": ne}):
                r = rs.RadialBasisApproximation(N=N)
                fail(r.train(X, f, v=v, e=e) is not None, "train returned something")
                check_surface(ctx, r, X, f, v, e, "fit")


def reproduce(ctx, m, N):
    idx = multi_indices(m, N)
    X = data.weyl(2 * len(idx) + 3, m, 2.0)
    polys = [{a: 1.0} for a in idx] + [{a: -2.0, b: 0.5} for a, b in itertools.combinations(idx, 2)][:20]
    polys += [{a: float(c) for a, c in zip(idx, data.weyl(len(idx), 1, 3.0)[:, 0])}]
    T = np.vstack((1.3 * data.weyl(4, m, 8.0), X[:2], np.zeros((1, m))))
    for coef in polys:
        f = sum(c * monomials(X, [a]) for a, c in coef.items())
        F = sum(c * monomials(T, [a]) for a, c in coef.items())
        G = sum(c * monomial_gradient(T, a) for a, c in coef.items())
        for (nv, v), (ne, e) in itertools.product(noises(len(X)), eigens(m)):
            if len(coef) > 1 and (nv in ("tiny", "integers", "large") or ne in ("equal", "huge", "tiny")):
                continue
            with ctx.case({"m": m, "N": N, "polynomial": [[list(a), c] for a, c in coef.items()][:6], "noise": nv,
                           "eigenvalues": ne}):
                r = rs.RadialBasisApproximation(N=N)
                r.train(X, f, v=v, e=e)
                P, D = r.predict(T, compgrad=True)
                close(P, F, 1e-6, what="polynomial")
                close(D, G, 1e-5, what="gradient of a polynomial")
                ctx.state(m, N, P)
                ctx.count("transitions")


def batches(ctx, m, N):
    X = data.weyl(comb(N + m, m) + 6, m, 2.0)
    r = rs.RadialBasisApproximation(N=N)
    r.train(X, np.cos(2 * X[:, :1]) + X[:, -1:], e=2.0 ** -np.arange(m + 1.0))
    T = np.vstack((data.weyl(2, m, 8.0), np.zeros((1, m)), X[:1], 5 * np.ones((1, m))))
    one = [r.predict(T[i:i + 1], compgrad=True) for i in range(5)]
    _, _, sc, gsc = formula(r, T)
    for k in range(1, 5):
        for sel in itertools.product(range(5), repeat=k):
            with ctx.case({"m": m, "N": N, "points": sel}):
                P, G = r.predict(T[list(sel)], compgrad=True)
                fail(P.shape != (k, 1) or G.shape != (k, m), "shapes {} {}", P.shape, G.shape)
                for i, j in enumerate(sel):
                    near(P[i], one[j][0][0], sc[j], 1e-12, "prediction among others")
                    near(G[i], one[j][1][0], gsc[j], 1e-12, "gradient among others")
                ctx.count("transitions")
                ctx.state(m, N, sel)


def histories(ctx, depth):
    sets = []
    for m, ph, v, e in ((1, 2.0, None, None), (2, 2.0, None, 2.0 ** -np.arange(4.0)), (2, 3.0, 0.01, None),
                        (3, 2.0, 0.0, 3.0 ** -np.arange(3.0))):
        X = data.weyl(14, m, ph)
        sets.append((X, np.sin(2 * X[:, :1]) + X[:, -1:] ** 2, None if v is None else np.full((14, 1), v), e))
    X, f, v, e = sets[1]
    bad = [(X[:2], f[:2], None, None), (X, f[:-1], None, e)]
    for hist in itertools.product(range(len(sets) + len(bad)), repeat=depth):
        if hist[-1] >= len(sets):
            continue
        with ctx.case({"trainings": hist}):
            r = rs.RadialBasisApproximation(N=1)
            for k in hist:
                X, f, v, e = (sets + bad)[k]
                ctx.count("transitions")
                if k >= len(sets):
                    before = {a: np.array(u) for a, u in vars(r).items()}
                    try:
                        r.train(X, f, v=v, e=e)
                        ok = False
                    except Exception:
                        ok = True
                    fail(not ok, "training {} accepted", k)
                    for a, u in before.items():
                        same(getattr(r, a), u, "attribute {} after a failed training".format(a))
                    continue
                r.train(X, f, v=v, e=e)
                r(X)
            q = rs.RadialBasisApproximation(N=1)
            q.train(X, f, v=v, e=e)
            for a in ("N", "Rsqr", "X", "f", "poly_weights", "radial_weights", "ell", "K"):
                same(np.asarray(getattr(r, a), float), np.asarray(getattr(q, a), float), "attribute {}".format(a))
            T = data.weyl(3, X.shape[1], 8.0)
            same(r(T), q(T), "prediction")
            ctx.state(hist[-1], r.radial_weights)


def kernels(ctx):
    for m in (1, 2, 3, 5):
        for ell in (np.ones((m, 1)), 10.0 ** (np.arange(m) - 1.0).reshape(m, 1), 0.3 * np.ones(m), 1e-6 * np.ones((m, 1)),
                    1 + 5e-3 * np.arange(m).reshape(m, 1), 2 + 1e-6 * np.arange(m), 1.0 / (1 + np.arange(m)[::-1])):
            for M, K in ((1, 1), (1, 3), (4, 1), (5, 3)):
                with ctx.case({"m": m, "ell": ell, "sizes": (M, K)}):
                    X1, X2 = data.weyl(M, m), data.weyl(K, m, 4.0)
                    X2[0] = X1[0]
                    for sigma in (1.0, 2.5):
                        C = rs.exponential_squared(X1, X2, sigma, ell)
                        R, d = kernel(X1, X2, np.ravel(ell))
                        close(C, sigma * R, 1e-11, what="radial functions")
                        D = rs.grad_exponential_squared(X1, X2, sigma, ell)
                        # derivative with respect to the evaluation points X2
                        want = sigma * 2 * d / np.ravel(ell) * R[:, :, None]
                        close(D, want, 1e-11, what="gradients of the radial functions")
                        ctx.state(C, D)
                        ctx.count("transitions")


def far(ctx, m, N, M, sizes):
    """Predictions at many points, at points of every magnitude and at points close to training points."""
    X = data.weyl(M, m, 2.0)
    f = np.cos(2 * X[:, :1]) + X[:, -1:]
    for ne, e in (("none", None), ("decay", 2.0 ** -np.arange(m + 1.0))):
        r = rs.RadialBasisApproximation(N=N)
        r.train(X, f, e=e)
        for K in sizes:
            for sc in (1e-9, 1e-3, 1.0, 3.0, 12.0, 1e2, 1e3 + 1, 1e5, 1e8):
                for where in (None, K - 1):
                    with ctx.case({"m": m, "N": N, "M": M, "eigenvalues": ne, "points": K, "magnitude": sc, "only": where}):
                        T = data.weyl(K, m, 8.0)
                        T = T * sc if where is None else np.vstack((T[:-1], sc * T[-1:]))
                        judge(ctx, r, T, "far")
            for d in (0.0, 1e-14, 1e-9, 1e-6, 1e-3):
                with ctx.case({"m": m, "N": N, "M": M, "eigenvalues": ne, "points": K, "distance": d}):
                    T = X[np.arange(K) % M] + d * data.weyl(K, m, 8.0)
                    judge(ctx, r, T, "near")


def judge(ctx, r, T, what):
    K, m = T.shape
    P, G = r.predict(T, compgrad=True)
    fail(P.shape != (K, 1) or G.shape != (K, m), "{}: shapes {} {}", what, P.shape, G.shape)
    val, grad, sc, gsc = formula(r, T)
    near(P, val, sc, 1e-11, what + ": prediction")
    near(G, grad, gsc + 1e-12 * np.max(gsc, axis=1, keepdims=True), 1e-10, what + ": gradient")
    near(r.predict(T)[0], P, sc, 1e-12, what + ": prediction without gradient")
    near(r(T), P, sc, 1e-12, what + ": call")
    near(r.gradient(T), G, gsc + 1e-12 * np.max(gsc, axis=1, keepdims=True), 1e-12, what + ": gradient method")
    ctx.state(what, K, P / np.max(sc))
    ctx.count("transitions")


def large_fits(ctx, m, N, sizes):
    for M in sizes:
        X0 = data.weyl(M, m, 2.0)
        for sx in ((1.0, 10.0, 0.1) if M < 150 else (1.0,)):
            X = sx * X0
            for (nf, f), (nv, v), (ne, e) in itertools.product(
                    (("waves", np.sin(3 * np.sum(X0, axis=1, keepdims=True))), ("large", 1e6 * data.weyl(M, 1, 5.0)),
                     ("tiny", 1e-9 * data.weyl(M, 1, 5.0))),
                    (("none", None), ("growing", 1e-4 * (1.0 + np.arange(M)).reshape(M, 1))),
                    (("none", None), ("decay", 4.0 ** -np.arange(m + 2.0).reshape(-1, 1)))):
                if M > 150 and (nf != "waves" or (v is None) != (e is None)):
                    continue
                with ctx.case({"m": m, "N": N, "M": M, "inputs times": sx, "f": nf, "noise": nv, "eigenvalues": ne}):
                    r = rs.RadialBasisApproximation(N=N)
                    r.train(X, f, v=v, e=e)
                    check_surface(ctx, r, X, f, v, e, "fit")


def units(ctx, m, N):
    """Training inputs of other magnitudes and away from zero."""
    M = 3 * len(multi_indices(m, N)) + 4
    X0 = data.weyl(M, m, 2.0)
    f0 = np.sin(3 * np.sum(X0, axis=1, keepdims=True)) + X0[:, :1] ** 2
    for sx, sh in itertools.product((1e-3, 0.1, 1.0, 10.0, 300.0), (0.0, -2.0, 20.0)):
        X = sx * (X0 + sh)
        if m > 1:
            X[:, 1] *= 3.0
        for sf, off in ((1.0, 0.0), (1.0, 1e4), (1e-6, 0.0)):
            for vn, v in (("none", None), ("varied", 10.0 ** (-4 + (np.arange(M) % 5)).reshape(M, 1))):
                for en, e in (("none", None), ("decay", 4.0 ** -np.arange(m + 2.0).reshape(-1, 1))):
                    with ctx.case({"m": m, "N": N, "inputs times": sx, "plus": sh, "outputs": (sf, off), "noise": vn, "eigenvalues": en}):
                        f = sf * f0 + off
                        r = rs.RadialBasisApproximation(N=N)
                        r.train(X, f, v=v, e=e)
                        check_surface(ctx, r, X, f, v, e, "inputs times {} plus {}".format(sx, sh))


def kept(ctx):
    """What a surface stored or returned for one training stays as it was when it is trained again."""
    for m, N in itertools.product((1, 2, 3), (0, 1, 2)):
        Xs = [data.weyl(14, m, p) for p in (2.0, 3.0, 4.0)]
        fs = [np.sin(2 * X[:, :1]) + (k + 1) * np.sum(X, axis=1, keepdims=True) ** 2 for k, X in enumerate(Xs)]
        T = data.weyl(4, m, 8.0)
        for order in itertools.permutations(range(3)):
            for e in (None, 2.0 ** -np.arange(m + 1.0)):
                with ctx.case({"m": m, "N": N, "trainings": order, "eigenvalues": e is not None}):
                    r = rs.RadialBasisApproximation(N=N)
                    old = []
                    for k in order:
                        r.train(Xs[k], fs[k], e=e)
                        P, G = r.predict(T, compgrad=True)
                        for a in [r.poly_weights, r.radial_weights, r.ell, r.K, r.X, r.f, P, G]:
                            if isinstance(a, np.ndarray):
                                old.append((a, a.copy(), k))
                        for a, b, j in old:
                            same(a, b, "array of training {} after training {}".format(j, k))
                        ctx.count("transitions")
                    ctx.state(m, N, order, r.radial_weights)


def jobs(tier):
    big = tier == "thorough"
    J = [Job("kernels", kernels), Job("histories 2", histories, 2), Job("histories 3", histories, 3)]
    for m, N in [(1, 0), (1, 1), (1, 2), (1, 4), (2, 0), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1)] + (
            [(1, 6), (4, 2), (5, 2), (3, 3), (6, 1)] if big else []):
        J.append(Job("fits m={} N={}".format(m, N), fits, m, N, (0, 1, 5, 15, 30) if big else (0, 1, 6)))
        J.append(Job("reproduce m={} N={}".format(m, N), reproduce, m, N))
    J.append(Job("kept", kept))
    for m, N in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1)):
        J.append(Job("units m={} N={}".format(m, N), units, m, N))
    for m, N, M in ((1, 1, 9), (1, 2, 40), (2, 2, 14), (2, 1, 101), (3, 1, 20), (3, 2, 14)):
        J.append(Job("far m={} N={} M={}".format(m, N, M), far, m, N, M, (1, 2, 33, 64, 101, 129, 257, 500, 1001, 2500)))
        J.append(Job("large fits m={} N={}".format(m, N), large_fits, m, N, (32, 33, 50, 64, 65, 100, 101, 129, 201) + (
            (257, 301, 501) if big else ())))
    J.append(Job("large fits m=2 N=1 more", large_fits, 2, 1, (257, 301)))
    J.append(Job("far m=10 N=1", far, 10, 1, 40, (1, 3, 130)))
    J.append(Job("fits m=10 N=1", fits, 10, 1, (0, 6)))
    for m, N in ((1, 2), (2, 1), (2, 2), (3, 1)):
        J.append(Job("batches m={} N={}".format(m, N), batches, m, N))
    J += history.jobs("C16", tier)
    return J
