"""C15: polynomial surfaces are the least-squares fit and reproduce polynomials."""
import itertools
from math import comb

import numpy as np

import data
import history
from core import Job, close, fail, same
from refs import lsq, monomial_gradient, monomials, multi_indices
from sut import rs

LEVEL = "model_checking"
RULE = ("every number of inputs and degree up to the bound; every monomial of the basis and products of data shapes; every "
        "subset of prediction points from a set, in every order; all histories of trainings on one object up to length 3; "
        "reference: least squares in extended precision on an independently enumerated basis")
ASSUMPTIONS = ["training points determine the polynomial (condition number below 1e7)"]


def train_points(m, N, extra=2.0, phase=2.0):
    p = comb(N + m, m)
    M = int(np.ceil(extra * p)) + 2
    return data.weyl(M, m, phase)


def coefficients(r, m, N):
    """{exponents: coefficient} as stored."""
    B, I = rs.polynomial_bases(np.ones((1, m)), N)
    return {tuple(int(v) for v in i): float(c) for i, c in zip(I, np.ravel(r.poly_weights))}


def basis(ctx, m, N):
    with ctx.case({"m": m, "N": N, "basis": "indices"}):
        X = np.vstack((data.weyl(5, m, 7.0), np.zeros((1, m)), np.ones((1, m)), -2 * np.ones((1, m))))
        B, I = rs.polynomial_bases(X, N)
        want = multi_indices(m, N)
        got = [tuple(int(v) for v in i) for i in I]
        fail(not np.array_equal(np.array(got, float).reshape(np.shape(I)), np.asarray(I, float)), "exponents {}", I)
        fail(sorted(got) != sorted(want), "monomials {} instead of {}", sorted(got), sorted(want))
        close(B, monomials(X, got), 1e-12, what="values of the monomials")
        dB = rs.grad_polynomial_bases(X, N)
        fail(dB.shape != (X.shape[0], len(got), m), "shape of the gradients {}", dB.shape)
        for k, a in enumerate(got):
            close(dB[:, k, :], monomial_gradient(X, a), 1e-12, what="gradient of monomial {}".format(a))
            ctx.count("transitions")
        same(np.asarray(rs.index_set(N, m), float), np.asarray(I, float), "index set")
        Bi = rs.polynomial_bases(np.round(3 * X).astype(int), N)[0]
        close(Bi, monomials(np.round(3 * X), got), 1e-12, what="monomials of integers")
        ctx.state(m, N, I)


def value(coef, X):
    out = np.zeros((X.shape[0], 1))
    for a, c in coef.items():
        out[:, 0] += c * monomials(X, [a])[:, 0]
    return out


def gradient(coef, X):
    out = np.zeros(X.shape)
    for a, c in coef.items():
        out += c * monomial_gradient(X, a)
    return out


def check_surface(r, coef, N, X, f, m, what, tol=1e-8, w=None):
    """r is the surface with the given coefficients."""
    sc = max(1e-300, max(abs(c) for c in coef.values()))
    T = np.vstack((1.3 * data.weyl(4, m, 8.0), np.zeros((1, m)), X[:2]))
    P, G = r.predict(T, compgrad=True)
    close(P / sc, value(coef, T) / sc, tol, what=what + ": prediction")
    close(G / sc, gradient(coef, T) / sc, tol, what=what + ": gradient")
    P2, G2 = r.predict(T)
    close(P2 / sc, P / sc, 1e-12, what=what + ": prediction without gradient")
    fail(G2 is not None, "{}: gradient not asked for {}", what, G2)
    close(r(T) / sc, P / sc, 1e-12, what=what + ": call")
    close(r.gradient(T) / sc, G / sc, 1e-12, what=what + ": gradient method")
    if N >= 1:
        z = np.zeros((1, m))
        fail(np.shape(r.g) != (m, 1), "{}: shape of g {}", what, np.shape(r.g))
        close(np.asarray(r.g)[:, 0] / sc, gradient(coef, z)[0] / sc, tol, what=what + ": linear coefficients")
    if N >= 2:
        H = np.zeros((m, m))
        for a, c in coef.items():
            if sum(a) == 2:
                k = [j for j in range(m) for _ in range(a[j])]
                H[k[0], k[1]] += c
                H[k[1], k[0]] += c
        fail(np.shape(r.H) != (m, m), "{}: shape of H {}", what, np.shape(r.H))
        close(np.asarray(r.H) / sc, H / sc, tol, what=what + ": quadratic coefficients")
    if w is None:
        res = float(np.sum((f - value(coef, X)) ** 2))
        tot = float(np.sum((f - np.mean(f)) ** 2))
        if tot > 1e-12 * np.sum(f * f):
            close(r.Rsqr, 1 - res / tot, 1e-7, what=what + ": R squared")
    same(r.X, X, what + ": stored inputs")
    same(r.f, f, what + ": stored outputs")


def reproduce(ctx, m, N):
    """Every monomial, and sums of them, come back exactly."""
    idx = multi_indices(m, N)
    X = train_points(m, N)
    combos = [{a: 1.0} for a in idx] + [{a: -2.5, b: 0.75} for a, b in itertools.combinations(idx, 2)][:60]
    combos += [{a: float(c) for a, c in zip(idx, data.weyl(len(idx), 1, p)[:, 0])} for p in (3.0, 4.0)]
    combos += [{a: 1e6 for a in idx}, {idx[-1]: 1e-6}]
    for coef in combos:
        with ctx.case({"m": m, "N": N, "polynomial": sorted([list(a), c] for a, c in coef.items())[:8]}):
            f = value(coef, X)
            r = rs.PolynomialApproximation(N=N)
            fail(r.train(X, f) is not None, "train returned something")
            full = {a: coef.get(a, 0.0) for a in idx}
            check_surface(r, full, N, X, f, m, "polynomial", 1e-7)
            got = coefficients(r, m, N)
            sc = max(abs(c) for c in coef.values())
            for a in idx:
                fail(abs(got[a] - full[a]) > 1e-7 * sc, "coefficient of {}: {} instead of {}", a, got[a], full[a])
            ctx.state(m, N, np.array([got[a] for a in sorted(got)]))
            ctx.count("transitions")
    if N == 2:
        with ctx.case({"m": m, "N": "default"}):
            fail(rs.PolynomialApproximation().N != 2, "default degree {}", rs.PolynomialApproximation().N)


def fits(ctx, m, N):
    """Data that is no polynomial, with and without weights."""
    idx = multi_indices(m, N)
    p = len(idx)
    for extra in (1.0, 1.3, 3.0):
        X = np.vstack((data.weyl(int(np.ceil(extra * p)) + 1, m, 2.0), data.weyl(2, m, 9.0)))
        M = X.shape[0]
        A = monomials(X, idx)
        if np.linalg.cond(A) > 1e7:
            ctx.count("skipped")
            continue
        k = np.arange(M)
        targets = [("hash", data.weyl(M, 1, 5.0)), ("waves", np.sin(3 * np.sum(X, axis=1, keepdims=True)) + X[:, :1] ** 3),
                   ("step", np.where(X[:, :1] > 0, 1.0, -1.0)), ("one", (k == 1).astype(float).reshape(M, 1)),
                   ("large", 1e6 * data.weyl(M, 1, 6.0)), ("integers", (k % 3).reshape(M, 1))]
        ws = [("none", None), ("ones", np.ones((M, 1))), ("increasing", (k + 1.0).reshape(M, 1)),
              ("scaled", 1e-3 * np.ones((M, 1))), ("tiny", 1e-14 * (1.0 + k % 3).reshape(M, 1)),
              ("huge", 1e14 * (1.0 + k % 2).reshape(M, 1)), ("cycle", (1.0 + k % 4).reshape(M, 1))]
        if extra == 3.0:
            ws.append(("zeros", (k % 3 > 0).astype(float).reshape(M, 1)))
        for (nf, f), (nw, w) in itertools.product(targets, ws):
            with ctx.case({"m": m, "N": N, "M": M, "f": nf, "weights": nw}):
                if w is not None and np.linalg.cond(np.sqrt(w) * A) > 1e7:
                    continue
                b = lsq(A, f, w)
                coef = {a: float(c) for a, c in zip(idx, b)}
                r = rs.PolynomialApproximation(N=N)
                if w is None:
                    r.train(X, f)
                else:
                    r.train(X, f, weights=w)
                check_surface(r, coef, N, X, f, m, "fit", 1e-6, w)
                if w is not None and nw == "cycle":
                    rep = np.repeat(np.arange(M), w[:, 0].astype(int))
                    q = rs.PolynomialApproximation(N=N)
                    q.train(X[rep], f[rep])
                    T = data.weyl(3, m, 8.0)
                    close(r(T), q(T), 1e-6, what="weights and repeated samples")
                ctx.state(m, N, M, nf, nw, r.poly_weights)
                ctx.count("transitions")


def batches(ctx, m, N):
    """Predictions for every selection of points from a set, in every order."""
    X = train_points(m, N)
    r = rs.PolynomialApproximation(N=N)
    r.train(X, np.cos(2 * X[:, :1]) + np.sum(X, axis=1, keepdims=True) ** 2)
    T = np.vstack((data.weyl(2, m, 8.0), np.zeros((1, m)), X[:1], 5 * np.ones((1, m))))
    one = [r.predict(T[i:i + 1], compgrad=True) for i in range(5)]
    sc = max(1.0, max(float(np.max(np.abs(o[1]))) for o in one))
    for k in range(1, 5):
        for sel in itertools.product(range(5), repeat=k):
            with ctx.case({"m": m, "N": N, "points": sel}):
                P, G = r.predict(T[list(sel)], compgrad=True)
                fail(P.shape != (k, 1) or G.shape != (k, m), "shapes {} {}", P.shape, G.shape)
                for i, j in enumerate(sel):
                    close(P[i] / sc, one[j][0][0] / sc, 1e-12, what="prediction among others")
                    close(G[i] / sc, one[j][1][0] / sc, 1e-12, what="gradient among others")
                ctx.count("transitions")
                ctx.state(m, N, sel)


def histories(ctx, depth):
    """Trainings one after another, also failing ones, leave only the last one behind."""
    sets = []
    for m, ph in ((1, 2.0), (2, 2.0), (2, 3.0), (3, 2.0)):
        X = train_points(m, 2, 2.0, ph)
        sets.append((X, np.sin(2 * X[:, :1]) + np.sum(X, axis=1, keepdims=True), None))
    X, f, _ = sets[1]
    sets.append((X, f, (1.0 + np.arange(len(X)) % 3).reshape(-1, 1)))
    bad = [(X[:3], f[:3], None), (X, f[:-1], None), (X[:, 0], f, None)]
    for hist in itertools.product(range(len(sets) + len(bad)), repeat=depth):
        if hist[-1] >= len(sets):
            continue
        with ctx.case({"trainings": hist}):
            r = rs.PolynomialApproximation(N=2)
            for k in hist:
                X, f, w = (sets + bad)[k]
                ctx.count("transitions")
                if k >= len(sets):
                    before = {a: np.array(v) for a, v in vars(r).items()}
                    try:
                        r.train(X, f)
                        fail(True, "training {} accepted", k)
                    except Exception as e:
                        if type(e).__name__ == "Violation":
                            raise
                    fail(set(vars(r)) != set(before), "failed training changed the surface")
                    for a, v in before.items():
                        same(getattr(r, a), v, "attribute {} after a failed training".format(a))
                    continue
                r.train(X, f, weights=w)
                if r.g.shape[0] > 0:
                    r(X)
            q = rs.PolynomialApproximation(N=2)
            q.train(X, f, weights=w)
            for a in ("N", "Rsqr", "X", "f", "poly_weights", "g", "H"):
                same(np.asarray(getattr(r, a), float), np.asarray(getattr(q, a), float), "attribute {}".format(a))
            T = data.weyl(3, X.shape[1], 8.0)
            same(r(T), q(T), "prediction")
            ctx.state(hist[-1], r.poly_weights)


def limits(ctx):
    """Exactly as many points as monomials are enough, one fewer is refused."""
    for m in range(1, 6):
        for N in range(0, 5):
            p = comb(N + m, m)
            if p > 60:
                continue
            with ctx.case({"m": m, "N": N, "points": p}):
                X = data.weyl(p, m, 2.0)
                f = data.weyl(p, 1, 3.0)
                if N:
                    r = rs.PolynomialApproximation(N=N)
                    r.train(X, f)
                    if np.linalg.cond(monomials(X, multi_indices(m, N))) < 1e5:
                        close(r(X), f, 1e-6, what="interpolation")
                    try:
                        rs.PolynomialApproximation(N=N).train(X[:-1], f[:-1])
                        ok = False
                    except Exception:
                        ok = True
                    fail(not ok, "{} points accepted for {} monomials", p - 1, p)
                ctx.state(m, N)


def absolute(coef, X):
    """Sum of the absolute terms: the scale of rounding."""
    return sum(abs(c) * np.abs(monomials(X, [a])[:, :1]) for a, c in coef.items())


def far(ctx, m, N, sizes):
    """Predictions at many points and at points of every magnitude."""
    X = train_points(m, N)
    r = rs.PolynomialApproximation(N=N)
    r.train(X, np.cos(2 * X[:, :1]) + np.sum(X, axis=1, keepdims=True) ** 2)
    coef = coefficients(r, m, N)
    for K in sizes:
        for sc in (1e-12, 1e-6, 1e-3, 1.0, 12.0, 1e2, 1e3 + 1, 1e4, 1e6, 1e9):
            for where in (None, K - 1):
                with ctx.case({"m": m, "N": N, "points": K, "magnitude": sc, "only": where}):
                    T = data.weyl(K, m, 8.0)
                    T = T * sc if where is None else np.vstack((T[:-1], sc * T[-1:]))
                    P, G = r.predict(T, compgrad=True)
                    fail(P.shape != (K, 1) or G.shape != (K, m), "shapes {} {}", P.shape, G.shape)
                    a = absolute(coef, T) + 1e-300
                    close(P / a, value(coef, T) / a, 1e-11, what="prediction")
                    ag = sum(abs(c) * np.abs(monomial_gradient(T, i)) for i, c in coef.items())
                    ag = np.max(ag, axis=1, keepdims=True) + 1e-300
                    close(G / ag, gradient(coef, T) / ag, 1e-11, what="gradient")
                    close(r.predict(T)[0] / a, P / a, 1e-12, what="prediction without gradient")
                    close(r(T) / a, P / a, 1e-12, what="call")
                    close(r.gradient(T) / ag, G / ag, 1e-12, what="gradient method")
                    ctx.state(m, N, K, sc, P / a)
                    ctx.count("transitions")


def large_fits(ctx, m, N, sizes):
    """Many training points, inputs and outputs of other magnitudes."""
    idx = multi_indices(m, N)
    for M in sizes:
        if M < 2 * len(idx):
            continue
        X0 = data.weyl(M, m, 2.0)
        for sx, sh in ((1.0, 0.0), (20.0, 0.0), (0.05, 0.0), (1.0, 2.0)):
            X = X0 * sx + sh
            A = monomials(X, idx)
            if np.linalg.cond(A) > 1e7:
                ctx.count("skipped")
                continue
            for sf in (1.0, 1e-9, 1e9):
                for w in (None, (1.0 + np.arange(M) % 4).reshape(M, 1), (np.arange(M).reshape(M, 1) + 1.0) / M):
                    with ctx.case({"m": m, "N": N, "M": M, "inputs times": sx, "plus": sh, "outputs times": sf,
                                   "weights": None if w is None else w[-1, 0]}):
                        f = sf * (np.sin(3 * np.sum(X0, axis=1, keepdims=True)) + data.weyl(M, 1, 5.0))
                        coef = {a: float(c) for a, c in zip(idx, lsq(A, f, w))}
                        r = rs.PolynomialApproximation(N=N)
                        r.train(X, f) if w is None else r.train(X, f, weights=w)
                        got = coefficients(r, m, N)
                        for a in idx:
                            cs = max(abs(coef[b]) * sx ** sum(b) for b in idx)
                            fail(abs(got[a] - coef[a]) * sx ** sum(a) > 1e-6 * cs, "coefficient of {}: {} instead of {}", a, got[a], coef[a])
                        check_surface(r, got, N, X, f, m, "fit", 1e-9, w)
                        if w is None:
                            res = float(np.sum((f - value(coef, X)) ** 2))
                            close(r.Rsqr, 1 - res / float(np.sum((f - np.mean(f)) ** 2)), 1e-7, what="R squared")
                        ctx.state(m, N, M, sx, sf, r.poly_weights / sf)
                        ctx.count("transitions")


def variation(ctx, m, N):
    """R squared of outputs of any mean: large common values leave it as it is."""
    X = train_points(m, N, 3.0, 2.0)
    M = X.shape[0]
    A = monomials(X, multi_indices(m, N))
    for mean in (0.0, 1.0, -30.0, 1e3, -1e5, 1e7):
        for k, noise in enumerate((np.sign(data.weyl(M, 1, 5.0)), data.weyl(M, 1, 6.0), np.sum(X, axis=1, keepdims=True) + 0.3 * data.weyl(M, 1, 7.0),
                                   np.eye(M)[:, :1])):
            for size in (1.0, 0.1, 50.0):
                with ctx.case({"m": m, "N": N, "mean": mean, "variation": k, "times": size}):
                    f = mean + size * noise
                    r = rs.PolynomialApproximation(N=N)
                    r.train(X, f)
                    d = f - f[0]
                    res = float(np.sum((d - A.dot(np.linalg.lstsq(A, d, rcond=None)[0])) ** 2))
                    tot = float(np.sum((d - np.mean(d)) ** 2))
                    close(r.Rsqr, 1 - res / tot, 1e-6 + 1e-10 * abs(mean), what="R squared")
                    ctx.state(m, N, mean, k, size, r.Rsqr)
                    ctx.count("transitions")


def kept(ctx):
    """What a surface stored or returned for one training stays as it was when it is trained again."""
    for m, N in itertools.product((1, 2, 3), (1, 2, 3)):
        Xs = [train_points(m, N, 2.0, p) for p in (2.0, 3.0, 4.0)]
        fs = [np.sin(2 * X[:, :1]) + (k + 1) * np.sum(X, axis=1, keepdims=True) ** 2 for k, X in enumerate(Xs)]
        T = data.weyl(4, m, 8.0)
        for order in itertools.permutations(range(3)):
            with ctx.case({"m": m, "N": N, "trainings": order}):
                r = rs.PolynomialApproximation(N=N)
                old = []
                for k in order:
                    r.train(Xs[k], fs[k])
                    P, G = r.predict(T, compgrad=True)
                    for a in [r.poly_weights, r.g, r.H, r.X, r.f, P, G]:
                        if isinstance(a, np.ndarray):
                            old.append((a, a.copy(), k))
                    for a, b, j in old:
                        same(a, b, "array of training {} after training {}".format(j, k))
                    ctx.count("transitions")
                ctx.state(m, N, order, r.poly_weights)


def jobs(tier):
    big = tier == "thorough"
    J = [Job("limits", limits), Job("histories 3", histories, 3)]
    if big:
        J.append(Job("histories 4", histories, 4))
    for m in range(1, 8 if big else 7):
        for N in range(0, 8 if big else 7):
            if comb(N + m, m) <= (800 if big else 220):
                J.append(Job("basis m={} N={}".format(m, N), basis, m, N))
    for m, N in [(1, 1), (1, 2), (1, 3), (1, 5), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1),
                 (5, 2)] + ([(1, 7), (2, 6), (3, 4), (4, 3), (6, 2), (7, 2), (8, 1)] if big else []):
        J.append(Job("reproduce m={} N={}".format(m, N), reproduce, m, N))
        J.append(Job("fits m={} N={}".format(m, N), fits, m, N))
    for m, N in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1)) + (((2, 4), (4, 2), (5, 2)) if big else ()):
        J.append(Job("variation m={} N={}".format(m, N), variation, m, N))
    J.append(Job("kept", kept))
    for m, N in ((1, 1), (1, 4), (2, 2), (2, 3), (3, 2)):
        J.append(Job("far m={} N={}".format(m, N), far, m, N, (1, 2, 9, 33, 64, 100, 101, 129, 257, 500, 1001, 2048, 5003)))
        J.append(Job("large fits m={} N={}".format(m, N), large_fits, m, N, (20, 33, 60, 100, 101, 129, 257, 500, 513, 1001) + (
            (2053, 5003) if big else ())))
    J.append(Job("far m=10 N=2", far, 10, 2, (1, 3, 130)))
    J.append(Job("fits m=10 N=2", fits, 10, 2))
    J.append(Job("fits m=25 N=1", fits, 25, 1))
    for m, N in ((1, 2), (2, 2), (2, 3), (3, 1), (3, 2)):
        J.append(Job("batches m={} N={}".format(m, N), batches, m, N))
    J += history.jobs("C15", tier)
    return J
