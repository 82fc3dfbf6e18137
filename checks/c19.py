"""C19: minimization on the active domain."""
import itertools

import numpy as np
import scipy.optimize

import data
import history
import sut
from c08 import flat_rotations, rotations, the_map
from core import Job, close, fail, raises
from fakegurobi import program
from refs import Zonotope, lsq, monomials, multi_indices
from sut import make_subspaces, optimizers, response_surfaces, rs

LEVEL = "model_checking"
RULE = ("every combination of dimensions, domain, basis, shape of a convex function (definite, semidefinite, linear, monotone "
        "transforms, higher powers), position of its minimizer (inside, on and outside the domain) and gradient given or not; "
        "the optimum is found by enumeration of active sets; every position of the best answer of a scripted local solver")
ASSUMPTIONS = ["scipy.optimize is part of the code under test; it may report failure only for functions with several minima",
               "minimum values to 1e-5 relative to the scale of the function"]


def hessians(n):
    yield "identity", np.eye(n)
    Q = data.ortho(n, 4.0) if n > 1 else np.eye(1)
    yield "scaled", (Q * np.resize([4.0, 1.0, 0.5, 0.25, 2.0], n)).dot(Q.T)
    yield "steep", 100.0 * np.eye(n)
    if n > 1:
        yield "semidefinite", np.outer(Q[:, 0], Q[:, 0])
    yield "linear", np.zeros((n, n))


def polytope(s):
    n = s.W1.shape[1]
    Z = Zonotope(s.W1)
    return np.vstack((-Z.normals, Z.normals)), -np.concatenate((Z.h, Z.h)), Z


def centers(kind, s):
    m, n = s.W1.shape
    x = 0.6 * data.weyl(2, m, 5.0)
    yield "inside", x[0].dot(s.W1)
    yield "origin", np.zeros(n)
    if kind == "bounded":
        Z = Zonotope(s.W1)
        q, h = Z.normals[0], Z.h[0]
        on = np.mean([v for v in Z.vertices() if abs(q.dot(v) - h) < 1e-9], axis=0)
        yield "on a facet", on
        yield "outside", 1.5 * on + 0.1 * data.weyl(1, n, 2.0)[0]
        yield "beyond a vertex", 2.0 * Z.vertices()[0]
    else:
        yield "far", 20 * data.weyl(1, n, 6.0)[0]


# monotone transforms of the quadratic, all convex where the quadratic is
TRANSFORMS = [("plain", lambda q: q, lambda q: 1.0),
              ("shifted", lambda q: q - 7.5, lambda q: 1.0),
              ("root", lambda q: np.sqrt(1 + q), lambda q: 0.5 / np.sqrt(1 + q)),
              ("exponential", lambda q: np.exp(0.1 * q), lambda q: 0.1 * np.exp(0.1 * q)),
              ("square", lambda q: q + q * q, lambda q: 1 + 2 * q)]


def answer(dom, f, df, n, what):
    y, v = optimizers.av_minimize(f, dom, avdfun=df)
    fail(np.shape(y) != (1, n), "{}: minimizer has shape {}", what, np.shape(y))
    fail(np.size(v) != 1, "{}: value {}", what, v)
    y, v = np.asarray(y, float)[0], float(np.ravel(v)[0])
    fail(not np.all(np.isfinite(y)) or not np.isfinite(v), "{}: returned {} {}", what, y, v)
    return y, v


def convex(ctx, kind, m, n, wide):
    bases = list(rotations(m))
    if kind == "unbounded" or n == 1:
        bases += list(flat_rotations(m))
    for nm, W in bases[:None if wide else 3 if m < 6 else 1]:
        s = make_subspaces(W, n=n)
        dom = the_map(kind, s).domain
        if kind == "bounded":
            A, b, Z = polytope(s)
        else:
            A, b, Z = np.zeros((0, n)), np.zeros(0), None
        for (hn, H), (cn, a), (tn, t, dt) in itertools.product(hessians(n), centers(kind, s), TRANSFORMS):
            if kind == "unbounded" and hn in ("linear", "semidefinite"):
                continue
            if m > 5 and hn == "steep" and tn == "square":
                continue                                     # values up to 1e7 and curvatures up to 1e5: beyond SLSQP
            if tn == "exponential" and (hn == "steep" or cn in ("far", "beyond a vertex")):
                continue
            if hn == "linear":
                if tn not in ("plain", "shifted") or cn == "origin":
                    continue
                lin, off = a / np.linalg.norm(a), 0.0
            else:
                lin, off = -H.dot(a), 0.5 * a.dot(H).dot(a)

            def q(y):
                return 0.5 * y.dot(H).dot(y) + lin.dot(y) + off
            k, ys, qs = program(lin, 0.5 * H, A, b)
            assert k == "optimal"
            ref = t(max(qs + off, 0.0) if hn != "linear" else qs + off)
            for grad in (False, True):
                desc = {"domain": kind, "m": m, "n": n, "W": nm, "H": hn, "minimizer": cn, "function": tn, "gradient": grad}
                with ctx.case(desc):
                    calls = []

                    def f(y):
                        y = np.asarray(y, float).ravel()
                        calls.append(y.copy())
                        return float(t(q(y)))

                    def df(y):
                        y = np.asarray(y, float).ravel()
                        return dt(q(y)) * (H.dot(y) + lin)
                    y, v = answer(dom, f, df if grad else None, n, "av_minimize")
                    fv = t(q(y))
                    sc = 1 + abs(ref) + abs(t(q(np.zeros(n))) - ref)
                    fail(abs(fv - v) > 1e-9 * sc, "reported value {}, value at {} is {}", v, y, float(fv))
                    fail(v > ref + 1e-5 * sc, "value {} at {}, minimum {} at {}", v, y, float(ref), ys)
                    if kind == "bounded":
                        sl = Z.slack(y)[0]
                        fail(sl < -1e-6 * (1 + np.max(Z.h)), "minimizer {} outside the domain by {}", y, float(-sl))
                    ctx.state(kind, m, n, y, v)
                    ctx.count("transitions", len(calls))
                    if hn == "scaled" and tn == "plain" and grad:
                        ctx.sample(dict(desc, minimizer=y, value=v, reference=[list(ys), float(ref)]))


def scaled(ctx, kind, m, n):
    """Functions at other scales: large values, narrow and wide minima, steep directions."""
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    dom = the_map(kind, s).domain
    A, b, Z = polytope(s) if kind == "bounded" else (np.zeros((0, n)), np.zeros(0), None)
    Q = data.ortho(n, 4.0) if n > 1 else np.eye(1)
    for curv, shift, (cn, a) in itertools.product((0.1, 30.0, 1e3), (0.0, 1e2, -1e4, 3e6), centers(kind, s)):
        H = (Q * (curv * (1.0 + np.arange(n) % 3))).dot(Q.T)
        lin, off = -H.dot(a), 0.5 * a.dot(H).dot(a)
        k, ys, qs = program(lin, 0.5 * H, A, b)
        ref = qs + off + shift
        for grad in (False, True):
            if shift == 3e6 and (not grad or kind == "unbounded"):
                continue                                   # differences of large values, and BFGS reports lost precision
            desc = {"domain": kind, "m": m, "n": n, "curvature": curv, "minimizer": cn, "shift": shift, "gradient": grad}
            with ctx.case(desc):
                def f(y):
                    y = np.asarray(y, float).ravel()
                    return float(0.5 * y.dot(H).dot(y) + lin.dot(y) + off + shift)
                y, v = answer(dom, f, (lambda y: H.dot(np.asarray(y, float).ravel()) + lin) if grad else None, n, "av_minimize")
                sc = 1 + abs(ref) + abs(f(np.zeros(n)) - ref)
                fail(abs(f(y) - v) > 1e-9 * sc, "reported value {}, value at {} is {}", v, y, f(y))
                fail(v > ref + 1e-5 * sc, "value {} at {}, minimum {} at {}", v, y, float(ref), ys)
                if kind == "bounded":
                    sl = Z.slack(y)[0]
                    fail(sl < -1e-6 * (1 + np.max(Z.h)), "minimizer {} outside the domain by {}", y, float(-sl))
                ctx.state(kind, m, n, y, v)
                ctx.count("transitions")


def several_minima(ctx, m, n):
    """Functions with several minima: the value returned is that of the best local search that was made."""
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    fs = [("double well", lambda y: float(np.sum((y * y - 0.25) ** 2 + 0.1 * y))),
          ("cosines", lambda y: float(np.sum(np.cos(5 * y) + 0.3 * y))),
          ("one deep", lambda y: float(np.sum(0.2 * y * y) - np.exp(-8 * np.sum((y - 0.4) ** 2)))),
          ("two bumps", lambda y: float(np.exp(-3 * np.sum((y - 0.3) ** 2)) - 0.7 * np.exp(-3 * np.sum((y + 0.5) ** 2))
                                        + 0.05 * np.sum(y * y)))]
    for kind in ("bounded", "unbounded"):
        if kind == "bounded" and n == 1:
            continue                              # an interval has no multistart
        dom = the_map(kind, s).domain
        for (name, f), grad in itertools.product(fs, (False, True)):
            if kind == "unbounded" and name == "cosines":
                continue
            with ctx.case({"domain": kind, "m": m, "n": n, "function": name, "gradient": grad}):
                def df(y):
                    y = np.asarray(y, float).ravel()
                    h = 1e-6
                    return np.array([(f(y + h * e) - f(y - h * e)) / (2 * h) for e in np.eye(n)])
                found = []

                def spy(real, fun, x0, *a, **k):
                    r = real(fun, x0, *a, **k)
                    found.append((bool(r.success), float(np.ravel(r.fun)[0])))
                    return r
                with sut.local_solver(spy):
                    try:
                        y, v = answer(dom, lambda y: f(np.asarray(y, float).ravel()), df if grad else None, n, "av_minimize")
                    except Exception as e:
                        if any(not ok for ok, _ in found):
                            ctx.count("skipped")
                            continue
                        raise
                good = [u for ok, u in found if ok]
                fail(bool(good) and v > min(good) + 1e-9, "value {} is not the best of {}", v, found)
                close(f(y), v, 1e-9, what="value at the minimizer")
                if kind == "bounded":
                    Z = Zonotope(s.W1)
                    fail(Z.slack(y)[0] < -1e-6 * (1 + np.max(Z.h)), "minimizer {} outside the domain", y)
                # an enumeration of the domain finds nothing far better than the best start
                ctx.state(kind, m, n, name, y, v)
                ctx.count("transitions", len(found))


def scripted(ctx, m, n, deviations):
    """The local solver is a model with any answers: the best one is returned with its own minimizer."""
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    levels = (-3.0, 0.0, 2.0, None)          # None: this start fails, at a lower value than all others
    for kind in ("bounded", "unbounded"):
        if kind == "bounded" and n == 1:
            continue
        dom = the_map(kind, s).domain
        for grad, (base, unit) in itertools.product((False, True), ((1.0, 1.0), (3e6, 1.0), (2e9, 1e6), (1e15, 1e13), (1e60, 1e59), (-5e8, 1.0), (1e-9, 1e-12))):
            count = [0]

            def probe(real, fun, x0, *a, **k):
                count[0] += 1
                return scipy.optimize.OptimizeResult(x=np.zeros(n), fun=0.0, success=True, message="", status=0)
            with sut.local_solver(probe):
                try:
                    optimizers.av_minimize(lambda y: 0.0, dom, (lambda y: np.zeros(n)) if grad else None)
                except Exception:
                    pass
            K = count[0]
            if K < 2:
                ctx.count("skipped")
                continue
            with ctx.case({"domain": kind, "m": m, "n": n, "gradient": grad, "starts": "all fail"}):
                with sut.local_solver(lambda real, fun, x0, *a, **k: scipy.optimize.OptimizeResult(
                        x=np.zeros(n), fun=0.0, success=False, message="no", status=8)):
                    raises(lambda: optimizers.av_minimize(lambda y: 0.0, dom, (lambda y: np.zeros(n)) if grad else None),
                           "all local searches fail")
            for where in itertools.chain.from_iterable(itertools.combinations(range(K), d) for d in range(deviations + 1 if base == 1.0 else 2)):
                for vals in itertools.product(levels, repeat=len(where)):
                    with ctx.case({"domain": kind, "m": m, "n": n, "gradient": grad, "base": base, "starts": where, "values": vals}):
                        val = base + unit * 0.01 * np.arange(K)
                        good = np.ones(K, bool)
                        for i, u in zip(where, vals):
                            val[i] = base + unit * ((-10.0 if u is None else u - 1.0) + 0.001 * i)
                            good[i] = u is not None
                        pts = 0.01 * data.weyl(K, n, 3.0)
                        at = itertools.count()

                        def model(real, fun, x0, *a, **k):
                            i = next(at)
                            return scipy.optimize.OptimizeResult(x=pts[i].copy(), fun=float(val[i]), message="",
                                                                 success=bool(good[i]), status=0 if good[i] else 8, jac=np.zeros(n), nit=1, nfev=1)

                        def f(y):
                            i = np.argmin(np.sum((pts - np.asarray(y, float).ravel()) ** 2, axis=1))
                            return float(val[i])
                        with sut.local_solver(model):
                            y, v = answer(dom, f, (lambda y: np.zeros(n)) if grad else None, n, "av_minimize")
                        best = np.argmin(np.where(good, val, np.inf))
                        close(v, val[best], 1e-12, what="value")
                        close(y, pts[best], 1e-12, what="minimizer")
                        ctx.state(kind, n, v, y)
                        ctx.count("transitions", K)


def surfaces(ctx, kind, m, n):
    """minimize: from a trained surface back to the inputs."""
    for nm, W in rotations(m):
        s = make_subspaces(W, n=n)
        mp = the_map(kind, s)
        p = n + 2 if m - n > 2 else min(n + 1, m)
        E = np.asarray(s.eigenvecs)
        M = 4 * (m + 1) * (m + 2)
        X = data.weyl(M, m, 7.0) * (1.0 if kind == "bounded" else 1.5)
        for (hn, H), (cn, a) in itertools.product(hessians(p), itertools.chain(centers(kind, s), [("mirrored", None)])):
            if hn in ("linear", "semidefinite"):
                continue
            a = -np.ones(n) * 0.2 if a is None else a
            c = np.concatenate((a, 0.1 * np.ones(p - n)))
            for N in (2, 3):
                with ctx.case({"domain": kind, "m": m, "n": n, "W": nm, "H": hn, "minimizer": cn, "degree": N}):
                    P = X.dot(E[:, :p]) - c
                    f = 0.5 * np.sum(P.dot(H) * P, axis=1).reshape(M, 1) + 1.5
                    surf = response_surfaces.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=N))
                    surf.train_with_data(X, f)
                    idx = multi_indices(n, 2)
                    G = data.weyl(3 * len(idx), n, 8.0)
                    val = surf.predict_av(G)[0]
                    co = lsq(monomials(G, idx), val)
                    exact = np.max(np.abs(monomials(G, idx).dot(co) - val[:, 0])) < 1e-8 * (1 + np.max(np.abs(val)))
                    Hs, gs, cs = np.zeros((n, n)), np.zeros(n), 0.0
                    for k, al in enumerate(idx):
                        js = [j for j in range(n) for _ in range(al[j])]
                        if len(js) == 2:
                            Hs[js[0], js[1]] += co[k]
                        elif len(js) == 1:
                            gs[js[0]] = co[k]
                        else:
                            cs = co[k]
                    Hs = Hs + Hs.T
                    definite = exact and np.linalg.eigvalsh(Hs)[0] > 1e-6
                    if kind == "unbounded" and not definite:
                        ctx.count("skipped")               # no minimum
                        continue
                    try:
                        x, v = optimizers.minimize(surf, X, f)
                    except Exception as e:
                        if not definite and "SLSQP failed" in str(e):
                            ctx.count("skipped")
                            continue
                        raise
                    x = np.asarray(x, float)
                    fail(x.size != m, "point {}", x)
                    x, v = x.reshape(1, m), float(np.ravel(v)[0])
                    at = float(surf.predict_av(x.dot(s.W1))[0][0, 0])
                    sc = 1 + np.max(np.abs(f))
                    fail(abs(at - v) > 1e-6 * sc, "surface at the point is {}, reported {}", at, v)
                    close(float(surf.predict(x)[0][0, 0]), at, 1e-9, what="prediction at the point")
                    if kind == "bounded":
                        fail(np.max(np.abs(x)) > 1 + 1e-6, "point {} outside the hypercube", x)
                    if definite:
                        A, b = polytope(s)[:2] if kind == "bounded" else (np.zeros((0, n)), np.zeros(0))
                        k, ys, fs = program(gs, 0.5 * Hs, A, b)
                        fail(v > fs + cs + 1e-5 * sc, "value {}, minimum of the surface {} at {}", v, float(fs + cs), ys)
                        ctx.count("executions")
                    ctx.state(kind, m, n, x, v)
                    ctx.count("transitions")


def jobs(tier):
    big = tier == "thorough"
    J = []
    for m in (2, 3, 4) + ((5,) if big else ()):
        for n in range(1, m + 1):
            for kind in ("bounded", "unbounded"):
                if n == m and (m > 2 and not big or m > 4):
                    continue
                J.append(Job("convex {} m={} n={}".format(kind, m, n), convex, kind, m, n, big))
                if n < m or m < 4:
                    J.append(Job("surfaces {} m={} n={}".format(kind, m, n), surfaces, kind, m, n))
    for m, n in ((6, 1), (6, 2), (6, 3), (10, 1), (10, 2), (16, 1), (16, 2), (25, 1)) + (((8, 3),) if big else ()):
        J.append(Job("convex bounded m={} n={}".format(m, n), convex, "bounded", m, n, False))
    for m, n in ((6, 1), (6, 5), (8, 6), (10, 2), (10, 9), (16, 12), (25, 2)):
        J.append(Job("convex unbounded m={} n={}".format(m, n), convex, "unbounded", m, n, False))
    for kind in ("bounded", "unbounded"):
        for m, n in ((6, 1), (6, 2), (7, 3)):
            J.append(Job("surfaces {} m={} n={}".format(kind, m, n), surfaces, kind, m, n))
        for m, n in ((2, 1), (3, 2), (4, 3), (6, 2), (9, 1)):
            J.append(Job("scaled {} m={} n={}".format(kind, m, n), scaled, kind, m, n))
    for m, n in ((2, 1), (3, 2), (4, 3)):
        J.append(Job("several minima m={} n={}".format(m, n), several_minima, m, n))
        J.append(Job("scripted m={} n={}".format(m, n), scripted, m, n, 3 if big else 2))
    J += history.jobs("C19", tier)
    return J
