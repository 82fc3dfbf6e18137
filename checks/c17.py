"""C17: full-space surfaces depend on the active variables only, with exact gradient."""
import itertools

import numpy as np

import data
import history
from c08 import flat_rotations, rotations, the_map
from core import Job, close, fail, same
from sut import domains, make_subspaces, response_surfaces, rs

LEVEL = "model_checking"
RULE = ("maps of both kinds x rotations (also with zero entries) x every dimension x every kind of underlying surface x data; "
        "prediction points moved along every inactive direction; every order of the access paths; all histories of training, "
        "change of partition and use of a second surface up to length 3")
ASSUMPTIONS = []


class Analytic(rs.ResponseSurface):
    """A known function in place of a trained surface; remembers what it was trained with."""

    def train(self, X, f):
        self.got = (np.array(X), np.array(f))

    def predict(self, X, compgrad=False):
        k = 1.0 + np.arange(X.shape[1])
        v = np.sin(X).dot(k).reshape(-1, 1) + X[:, :1] * X[:, -1:]
        d = np.cos(X) * k
        d[:, 0] += X[:, -1]
        d[:, -1] += X[:, 0]
        return v, (d if compgrad else None)


class Derived(rs.RadialBasisApproximation):
    """A caller's own kind of radial basis surface."""


class DerivedPolynomial(rs.PolynomialApproximation):
    pass


def surfaces(n):
    yield "analytic", Analytic
    for N in (1, 2, 3):
        yield "polynomial {}".format(N), lambda N=N: rs.PolynomialApproximation(N=N)
    for N in (0, 1, 2):
        yield "radial {}".format(N), lambda N=N: rs.RadialBasisApproximation(N=N)
    yield "radial, derived", lambda: Derived(N=1)
    yield "polynomial, derived", lambda: DerivedPolynomial(N=2)
    yield "default", lambda: None


def targets(X, Y=None):
    """Outputs; radial bases get smooth functions of the active variables, for which their length scales are not tiny."""
    Y = X if Y is None else Y
    yield "waves", np.sin(2 * Y[:, :1]) + Y[:, -1:] ** 2
    yield "exponential", np.exp(0.7 * np.sum(Y, axis=1, keepdims=True))
    yield "hash", data.weyl(len(X), 1, 5.0)


def spiky(r):
    return isinstance(r, rs.RadialBasisApproximation) and np.min(r.ell) < 1e-3


def same_surface(a, b, T, what):
    pa, ga = a.predict(T, compgrad=True)
    pb, gb = b.predict(T, compgrad=True)
    close(pa, pb, 1e-9, what=what)
    close(ga, gb, 1e-8, what=what + " (gradient)")


def check(ctx, r, s, X, what):
    W1, W2 = np.array(s.W1), np.array(s.W2)
    m, n = W1.shape
    T = np.vstack((0.8 * data.weyl(4, m, 8.0), np.zeros((1, m)), X[:2]))
    Y = T.dot(W1)
    P, G = r.respsurf.predict(Y, compgrad=True)
    sc = max(np.max(np.abs(P)), 1e-12)
    gs = max(np.max(np.abs(G)), 1e-12)
    keep = T.copy()
    f, df = r.predict(T, compgrad=True)
    fail(f.shape != (len(T), 1) or df.shape != (len(T), m), "{}: shapes {} {}", what, f.shape, df.shape)
    close(f / sc, P / sc, 1e-9, what=what + ": prediction")
    close(df / gs, G.dot(W1.T) / gs, 1e-9, what=what + ": gradient")
    paths = [("call", lambda: r(T), P, sc), ("predict", lambda: r.predict(T)[0], P, sc),
             ("gradient", lambda: r.gradient(T), G.dot(W1.T), gs),
             ("predict_av", lambda: r.predict_av(Y)[0], P, sc),
             ("predict_av with gradient", lambda: r.predict_av(Y, compgrad=True)[1], G, gs),
             ("predict_av value with gradient", lambda: r.predict_av(Y, compgrad=True)[0], P, sc),
             ("gradient_av", lambda: r.gradient_av(Y), G, gs)]
    for order in (paths, paths[::-1]):
        for name, g, want, k in order:
            close(g() / k, want / k, 1e-9, what="{}: {}".format(what, name))
            ctx.count("transitions")
    fail(r.predict(T)[1] is not None or r.predict_av(Y)[1] is not None, "{}: gradient not asked for", what)
    # inactive directions
    for t in (1.0, -0.3, 1e3):
        for j in range(m - n):
            moved = r.predict(T + t * W2[:, j], compgrad=True)
            close(moved[0] / sc, P / sc, 1e-7, what="{}: moved along inactive direction {}".format(what, j))
            close(moved[1] / gs, df / gs, 1e-7, what="{}: gradient moved along {}".format(what, j))
    if m > n:
        moved = T + data.weyl(len(T), m - n, 9.0).dot(W2.T)
        close(r(moved) / sc, P / sc, 1e-8, what=what + ": each point moved on its own")
    # derivative
    h = 1e-4
    num = np.column_stack([(r(T + h * e) - r(T - h * e)) / (2 * h) for e in np.eye(m)])
    third = 0.02 * gs + 1e-4 * sc / h * 1e-6
    fail(np.max(np.abs(num - df)) > third, "{}: gradient {} but differences {}", what, df, num)
    same(T, keep, what + ": argument")
    for i in range(len(T)):
        close(r(T[i:i + 1]) / sc, f[i:i + 1] / sc, 1e-9, what=what + ": one point")
    ctx.state(what, f, df)


def main(ctx, kind, m, n):
    rot = itertools.chain(rotations(m), flat_rotations(m) if kind == "unbounded" or n == 1 else ())
    for nm, W in rot:
        e = 4.0 ** -np.arange(m)
        s = make_subspaces(W, e, n=n)
        mp = the_map(kind, s)
        X = data.weyl(40, m, 2.0)
        if n < m:                                  # several inputs with the same active variables
            D = np.vstack((X[:20], X[:20] + 0.3 * data.weyl(20, m - n, 4.0).dot(s.W2.T)))
        sets = [(X, sn, mk, fn, f) for (sn, mk), (fn, f) in itertools.product(surfaces(n), targets(X, X.dot(s.W1)))]
        if n < m:
            sets += [(D, sn, mk, "repeated " + fn, f) for (sn, mk), (fn, f) in itertools.product(surfaces(n), targets(D, D.dot(s.W1)))
                     if sn == "analytic" or sn.startswith("poly")]
        for X, sn, mk, fn, f in sets:
            if fn == "hash" and (sn == "default" or sn.startswith("radial")):
                continue
            with ctx.case({"map": kind, "m": m, "n": n, "W": nm, "surface": sn, "f": fn}):
                surf = mk()
                if surf is None:
                    r = response_surfaces.ActiveSubspaceResponseSurface(mp)
                    fail(type(r.respsurf) is not rs.RadialBasisApproximation, "default surface {}", type(r.respsurf))
                else:
                    r = response_surfaces.ActiveSubspaceResponseSurface(mp, surf)
                    fail(r.respsurf is not surf, "another surface is used")
                fail(r.avmap is not mp, "another map is used")
                keep = X.copy(), f.copy()
                r.train_with_data(X, f)
                same(X, keep[0], "inputs")
                same(f, keep[1], "outputs")
                Y = X.dot(s.W1)
                if sn == "analytic":
                    close(surf.got[0], Y, 1e-12, what="active variables of the training inputs")
                    same(surf.got[1], f, "training outputs")
                else:
                    q = mk() or rs.RadialBasisApproximation()
                    if isinstance(q, rs.RadialBasisApproximation):
                        q.train(Y, f, e=s.eigenvals)
                    else:
                        q.train(Y, f)
                    same_surface(r.respsurf, q, 0.7 * Y[:5], "surface trained on the active variables")
                if spiky(r.respsurf):
                    ctx.count("spiky")
                    continue
                check(ctx, r, s, X, "trained with data")
            if sn.startswith("radial") or sn == "default":
                for vn, v in (("small", np.full((40, 1), 1e-4)), ("varied", 0.01 * (1.0 + np.arange(40) % 3).reshape(-1, 1))):
                    with ctx.case({"map": kind, "m": m, "n": n, "W": nm, "surface": sn, "f": fn, "noise": vn}):
                        r = response_surfaces.ActiveSubspaceResponseSurface(mp, mk())
                        r.train_with_data(X, f, v=v)
                        q = mk() or rs.RadialBasisApproximation()
                        q.train(X.dot(s.W1), f, v=v, e=s.eigenvals)
                        same_surface(r.respsurf, q, 0.7 * X[:5].dot(s.W1), "surface trained with noise")
                        ctx.state(nm, n, vn, r(X[:3]))
        ctx.sample({"map": kind, "m": m, "n": n, "W1": s.W1})


def histories(ctx, kind, m, sn, mk, depth):
    """Two surfaces on two maps that share a subspaces object or not, trained and repartitioned in every order."""
    X = data.weyl(40, m, 2.0)
    fs = [f for _, f in targets(X, X.dot(data.ortho(m, 0.5)))][:2]
    alphabet = [("train", w, k) for w in (0, 1) for k in (0, 1)] + [("partition", w, n) for w in (0, 1) for n in (1, 2)]
    for shared in (False, True):
        for hist in itertools.product(alphabet, repeat=depth):
            with ctx.case({"surface": sn, "map": kind, "shared": shared, "history": hist}):
                S = [make_subspaces(data.ortho(m, 0.5), n=1)]
                S.append(S[0] if shared else make_subspaces(data.ortho(m, 1.5), n=1))
                maps = [the_map(kind, s) for s in S]
                R = [response_surfaces.ActiveSubspaceResponseSurface(a, mk()) for a in maps]
                trained = {}
                for op, w, k in hist:
                    ctx.count("transitions")
                    if op == "train":
                        R[w].train_with_data(X, fs[k])
                        trained[w] = (k, np.array(S[w].W1))
                    else:
                        S[w].partition(k)
                    for u, (kk, W1) in trained.items():
                        if W1.shape != S[u].W1.shape:
                            continue
                        q = mk() or rs.RadialBasisApproximation()
                        if isinstance(q, rs.RadialBasisApproximation):
                            q.train(X.dot(W1), fs[kk], e=S[u].eigenvals)
                        else:
                            q.train(X.dot(W1), fs[kk])
                        T = 0.5 * data.weyl(3, m, 8.0)
                        close(R[u](T), q(T.dot(W1)), 1e-9, what="prediction after {}".format(hist))
                        close(R[u].gradient(T), q.gradient(T.dot(W1)).dot(W1.T), 1e-8, what="gradient after {}".format(hist))
                    ctx.state(sn, shared, op, sorted(trained))


def many(ctx, kind, m, n, Ms):
    """Numbers of inputs, dimensions and magnitudes at which the evaluation could change its method."""
    W = data.ortho(m, 0.5)
    s = make_subspaces(W, 4.0 ** -np.arange(m), n=n)
    W1, W2 = np.array(s.W1), np.array(s.W2)
    mp = the_map(kind, s)
    for train in (40, 150, 400):
        X = data.weyl(train, m, 2.0)
        Y = X.dot(s.W1)
        f = np.sin(2 * Y[:, :1]) + Y[:, -1:] ** 2
        for sn, mk in (("analytic", Analytic), ("polynomial 2", lambda: rs.PolynomialApproximation(N=2)),
                       ("radial 2", lambda: rs.RadialBasisApproximation(N=2)), ("default", lambda: None)):
            with ctx.case({"map": kind, "m": m, "n": n, "surface": sn, "trained with": train}):
                r = response_surfaces.ActiveSubspaceResponseSurface(mp, mk())
                r.train_with_data(X, f)
            if spiky(r.respsurf):
                ctx.count("spiky")
                continue
            for M in Ms:
                for sc in ((1.0, 1e-3, 30.0, 1e4) if sn == "analytic" else (1.0, 3.0)):
                    with ctx.case({"map": kind, "m": m, "n": n, "surface": sn, "trained with": train, "M": M, "scale": sc}):
                        T = sc * data.weyl(M, m, 8.0)
                        keep = T.copy()
                        P, G = r.respsurf.predict(T.dot(s.W1), compgrad=True)
                        ps, gs = max(np.max(np.abs(P)), 1e-12), max(np.max(np.abs(G)), 1e-12)
                        for name, g, want, k in (
                                ("predict", lambda: r.predict(T)[0], P, ps), ("call", lambda: r(T), P, ps),
                                ("predict with gradient", lambda: r.predict(T, compgrad=True)[0], P, ps),
                                ("gradient", lambda: r.gradient(T), G.dot(W1.T), gs),
                                ("gradient with prediction", lambda: r.predict(T, compgrad=True)[1], G.dot(W1.T), gs),
                                ("predict_av", lambda: r.predict_av(T.dot(W1))[0], P, ps),
                                ("gradient_av", lambda: r.gradient_av(T.dot(W1)), G, gs)):
                            close(np.asarray(g()) / k, want / k, 1e-8, what=name)
                            ctx.count("transitions")
                        same(T, keep, "argument")
                        if n < m and sc == 1.0:
                            moved = T + data.weyl(M, m - n, 9.0).dot(W2.T)
                            close(r(moved) / ps, P / ps, 1e-7, what="moved along the inactive directions")
                            close(r.gradient(moved) / gs, G.dot(W1.T) / gs, 1e-7, what="gradient after the move")
                        ctx.state(sn, train, M, sc, P[-1])


def jobs(tier):
    big = tier == "thorough"
    J = []
    for m in (2, 3, 4) + ((5, 6) if big else ()):
        for n in range(1, m + 1):
            for kind in ("unbounded", "bounded"):
                J.append(Job("{} m={} n={}".format(kind, m, n), main, kind, m, n))
    for m, n in ((2, 1), (2, 2), (3, 2), (5, 1), (6, 3)) + ((10, 1), (11, 2), (16, 3), (20, 2), (33, 1)):
        for kind in ("unbounded", "bounded"):
            if kind == "unbounded" or m < 7:
                J.append(Job("many {} m={} n={}".format(kind, m, n), many, kind, m, n,
                             (1, 2, 10, 11, 25, 50, 51, 64, 100, 101, 128, 129, 200, 257, 500, 501, 1000, 1001, 1024, 1031,
                              2053) if m < 7 else (1, 2, 50, 101, 257, 1031)))
    for sn, mk in (("polynomial 2", lambda: rs.PolynomialApproximation(N=2)), ("default", lambda: None)):
        J.append(Job("histories {}".format(sn), histories, "unbounded", 3, sn, mk, 3 if big or sn != "default" else 2))
        J.append(Job("histories bounded {}".format(sn), histories, "bounded", 3, sn, mk, 2))
    J += history.jobs("C17", tier)
    return J
