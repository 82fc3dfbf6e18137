"""C27: a function of few linear combinations of its inputs is treated exactly by the whole pipeline."""
import itertools
import math

import numpy as np

import data
from c08 import flat_rotations, rotations, the_map
from core import Job, close, explore, fail, same, scripted
from policies import fixed, n_axes, n_const, n_grid, patterns, u_alternate, u_const, u_grid
from sut import domains, gradients, integrals, misc, optimizers, response_surfaces, rs, seeded, simrunners, subspaces

LEVEL = "model_checking"
RULE = ("ridge functions h(A'x): inputs x true dimensions x directions (general, along the axes, not orthogonal) x profiles "
        "h (linear, definite, bilinear, cubic, oscillating, exponential) x domains x ways of estimating the subspace x "
        "patterns of random answers with at most one deviation; every stage of the pipeline judged against h itself")
ASSUMPTIONS = ["bounded domains of several active variables in general position",
               "samples whose gradients span the true subspace (checked on the exact gradients)"]


class Ridge:
    """f(x) = h(A'x), with h known exactly."""

    def __init__(self, A, name, degree, h, dh, low=None):
        self.A, self.name, self.degree, self.h, self.dh, self.low = A, name, degree, h, dh, low
        self.calls = 0

    def values(self, X):
        return self.h(np.asarray(X).dot(self.A)).reshape(-1, 1)

    def slopes(self, X):
        return self.dh(np.asarray(X).dot(self.A)).dot(self.A.T)

    def one(self, x):
        self.calls += 1
        return self.values(x)[0, 0]

    def grad(self, x):
        return self.slopes(x)


def profiles(A):
    """Known functions of k variables; the last entry is (kind, value) of the minimum over inputs in the hypercube."""
    m, k = A.shape
    a = np.resize([1.0, -2.0, 0.5, 3.0], k)
    yield Ridge(A, "linear", 1, lambda T: 1.5 + T.dot(a), lambda T: np.tile(a, (len(T), 1)),
                ("vertex", 1.5 - np.sum(np.abs(A.dot(a)))))
    c = (0.4 * data.weyl(1, m, 7.0)).dot(A)
    q = np.resize([2.0, 1.0, 0.5], k)
    yield Ridge(A, "definite", 2, lambda T: 0.3 + ((T - c) ** 2).dot(q), lambda T: 2 * (T - c) * q, ("inside", 0.3))
    if k > 1:
        def db(T):
            D = np.zeros(T.shape)
            D[:, 0], D[:, -1] = T[:, -1], T[:, 0]
            for j in range(1, k - 1):
                D[:, j] = 2 * T[:, j]
            return D
        yield Ridge(A, "bilinear", 2, lambda T: T[:, 0] * T[:, -1] + np.sum(T[:, 1:-1] ** 2, axis=1), db)
    else:
        yield Ridge(A, "even", 2, lambda T: T[:, 0] ** 2 - 1, lambda T: 2 * T, ("inside", -1.0))

    def dc(T):
        D = np.tile(a, (len(T), 1)) + 2 * T
        D[:, 0] += 3 * T[:, 0] ** 2 + T[:, -1] ** 2
        D[:, -1] += 2 * T[:, 0] * T[:, -1]
        return D
    yield Ridge(A, "cubic", 3, lambda T: T.dot(a) + np.sum(T ** 2, axis=1) + T[:, 0] ** 3 + T[:, 0] * T[:, -1] ** 2, dc)
    p = 1.0 + np.arange(k)
    b = 0.3 * p / max(1.0, np.sqrt(np.max(np.sum(A * A, axis=0)) * np.max(p)))
    yield Ridge(A, "waves", None, lambda T: np.sin(T).dot(p), lambda T: np.cos(T) * p)
    yield Ridge(A, "exponential", None, lambda T: np.sum(np.exp(T * b), axis=1),
                lambda T: np.exp(T * b) * b)


def directions(kind, m, k):
    for nm, W in itertools.chain(rotations(m), flat_rotations(m) if kind == "unbounded" or k == 1 else ()):
        mix = np.eye(k) + 0.5 * data.weyl(k, k, 3.0)
        yield nm, W[:, :k].dot(mix)
        if nm == "rotation":
            yield "units", 3.0 * W[:, :k] * (1.0 + np.arange(k))
            yield "opposite", -W[:, :k]


def projector(A):
    Q = np.linalg.qr(A)[0]
    return Q.dot(Q.T)


def spans(e, W, g, k, what, tol=1e-7):
    """The k leading eigenvectors span the true directions and the other eigenvalues vanish."""
    e = np.ravel(e)
    fail(np.any(e[k:] > (tol ** 2 if tol > 1e-6 else 1e-13) * e[0]), "{}: eigenvalues {} of a function of {} variables", what, e, k)
    if e[k - 1] > 1e-6 * e[0]:
        close(W[:, :k].dot(W[:, :k].T), projector(g.A), tol * np.sqrt(e[0] / e[k - 1]), what=what + ": subspace")
        return True
    return False


def policies_of(ch, free):
    return patterns(ch, normal=[n_grid, n_axes, n_const(1.0)], uniform=[u_grid, u_const(0.5), u_alternate], free=free)


def estimate(ctx, g, X, kind, k):
    """All ways to estimate the subspace that are exact for this function; returns the object from exact gradients."""
    m = X.shape[1]
    f = g.values(X)
    df = g.slopes(X)
    M = len(X)
    s = subspaces.Subspaces()
    s.compute(df=df.copy())
    good = spans(s.eigenvals, s.eigenvecs, g, k, "from gradients")
    fail(not good and g.name != "linear", "exact gradients of {} do not span the directions", g.name)
    ctx.count("transitions")
    w = (1.0 + np.arange(M) % 3).reshape(-1, 1) / M
    t = subspaces.Subspaces()
    t.compute(df=df.copy(), weights=w)
    spans(t.eigenvals, t.eigenvecs, g, k, "from weighted gradients")
    t.compute(df=simrunners.SimulationGradientRunner(g.grad).run(X))
    close(t.eigenvals, s.eigenvals, 1e-12, what="from the gradient simulation")
    for h in (1e-6, 1e-5):
        t.compute(df=gradients.finite_difference_gradients(X, g.one, h=h))
        spans(t.eigenvals, t.eigenvecs, g, k, "from finite differences", 1e-3)
    t.compute(df=gradients.finite_difference_gradients(X, simrunners.SimulationRunner(g.one)))
    spans(t.eigenvals, t.eigenvecs, g, k, "from finite differences of a runner", 1e-3)
    if g.degree is not None and g.degree <= 2 and M >= 2 * (m + 1) * (m + 2) // 2:
        t.compute(X=X, f=f, sstype="QPHD")
        spans(t.eigenvals, t.eigenvecs, g, k, "from a quadratic model")
        t.compute(X=X, f=f, sstype="QPHD", weights=w)
        spans(t.eigenvals, t.eigenvecs, g, k, "from a weighted quadratic model")
    if g.name == "linear":
        d = g.A.dot(g.dh(np.zeros((1, g.A.shape[1])))[0])
        lin = Ridge(d[:, None], "linear", 1, None, None)
        for st in ("OLS",) + (("QPHD",) if M >= (m + 1) * (m + 2) else ()):
            t.compute(X=X, f=f, sstype=st)
            spans(t.eigenvals, t.eigenvecs, lin, 1, st + " of a linear function")
            close(t.eigenvals[0, 0], d.dot(d), 1e-8, what=st + ": squared slope")
            ctx.count("transitions")
        close(s.eigenvals[0, 0], d.dot(d), 1e-10, what="squared slope")

        def opg(ch):
            u = subspaces.Subspaces()
            with scripted(policies_of(ch, 2)):
                u.compute(X=X, f=f, sstype="OPG")
            return u
        for c, u in explore(opg, 1, ctx.stats):
            spans(u.eigenvals, u.eigenvecs, lin, 1, "OPG of a linear function, {}".format(c), 1e-5)
    if m > 1:
        def boot(ch):
            u = subspaces.Subspaces()
            with scripted(policies_of(ch, 3)):
                u.compute(df=df, nboot=3)
            return u
        for c, u in explore(boot, 1, ctx.stats):
            fail(np.any(u.e_br[k:] > 1e-13 * u.e_br[0, 1]), "ranges {} of a function of {} variables", u.e_br, k)
            if g.degree is None or k == 1:
                lowest = u.e_br[k - 1, 0] if k < m else 0
                if lowest > 1e-6 * u.e_br[0, 1]:
                    fail(u.sub_br[k - 1, 2] > 1e-5, "distance {} between replicates of the same subspace", u.sub_br[k - 1])
    if k == 1 and m > 1:
        fail(s.W1.shape != (m, 1), "dimension {} chosen for one direction", s.W1.shape)
    return s if good else None


def pipeline(ctx, kind, m, k, M, thorough):
    for nm, A in directions(kind, m, k):
        for g in profiles(A):
            desc = {"kind": kind, "m": m, "k": k, "directions": nm, "profile": g.name}
            X = data.weyl(M, m, 2.0) * (1.0 if kind == "bounded" else 1.8)
            s = None
            with ctx.case(dict(desc, stage="subspace")):
                s = estimate(ctx, g, X, kind, k)
                ctx.state(desc, np.ravel(projector(A)))
            if s is None:
                # one direction only: the exact subspace has dimension one
                if g.name != "linear" or k == 1:
                    continue
                d = g.A.dot(g.dh(np.zeros((1, k)))[0])
                low = g.low
                a = d[:, None]
                g = Ridge(a, "linear", 1, lambda T: 1.5 + T[:, 0], lambda T: np.ones(T.shape), low)
                s = subspaces.Subspaces()
                s.compute(df=g.slopes(X))
                n = 1
            else:
                n = k
            mp = None
            with ctx.case(dict(desc, stage="map")):
                s.partition(n)
                mp = the_map(kind, s)
                through_map(ctx, g, mp, X)
            if mp is None:
                continue
            with ctx.case(dict(desc, stage="integral")):
                integral(ctx, g, mp, kind, n, thorough)
            with ctx.case(dict(desc, stage="surface")):
                surface(ctx, g, mp, kind, X, n)
            if g.low is not None:
                with ctx.case(dict(desc, stage="minimum")):
                    minimum(ctx, g, mp, kind, X)
        ctx.sample(desc)


def through_map(ctx, g, mp, X):
    Y = mp.forward(X[:4])[0]
    want = g.values(X[:4])
    sc = np.max(np.abs(want)) + 1.0

    def run(ch):
        with scripted(policies_of(ch, 3)):
            return mp.inverse(Y, 3)
    for c, (Xi, ind) in explore(run, 1, ctx.stats):
        f = simrunners.SimulationRunner(g.one).run(Xi)
        close(f / sc, np.repeat(want, 3, axis=0) / sc, 1e-9, what="value at inputs with the same active variables, {}".format(c))
        Ef, Vf = misc.conditional_expectations(f, ind)
        close(Ef / sc, want / sc, 1e-9, what="conditional expectation")
        fail(np.any(Vf < 0) or np.any(Vf > 1e-16 * sc ** 2), "conditional variance {} although nothing varies", Vf)
        ctx.state(g.name, c, Xi)


def gaussian(g, k):
    """Expectation over standard normal inputs by a product rule in the k true variables."""
    x, w = np.polynomial.hermite_e.hermegauss(24 if k < 3 else 16)
    w = w / np.sum(w)
    G = np.array(list(itertools.product(x, repeat=k)))
    V = np.prod(np.array(list(itertools.product(w, repeat=k))), axis=1)
    L = np.linalg.cholesky(g.A.T.dot(g.A))
    return float(V.dot(g.h(G.dot(L.T))))


def integral(ctx, g, mp, kind, n, thorough):
    W1 = np.array(mp.domain.subspaces.W1)

    def avf(y):
        return g.values(y.dot(W1.T))[0, 0]
    m = W1.shape[0]
    per = (1, 2, 3, 5, 8) if kind == "unbounded" else (2, 5) if n > 1 else (1, 2, 7)
    lb = np.resize([-3.0, 10.0, 0.0], m)
    ub = np.resize([5.0, 10.5, 1e-3], m)
    unit = misc.BoundedNormalizer(lb, ub)

    def physical(x):
        return g.one(unit.normalize(unit.unnormalize(x)))
    for j, p in enumerate(per):
        N = p ** n if kind == "unbounded" else p
        for NMC in (1, 4):
            for name, fun in (("function", g.one), ("runner", simrunners.SimulationRunner(g.one))) + (
                    (("physical units", physical),) if j == 1 else ()):
                before = g.calls
                mu, lo, hi = seeded(lambda: integrals.integrate(fun, mp, N, NMC=NMC))
                calls = g.calls - before
                av = seeded(lambda: integrals.av_integrate(avf, mp, N))
                rule = seeded(lambda: integrals.av_quadrature_rule(mp, N))
                fail(calls != NMC * len(rule[0]), "{} simulations for {} nodes with {} inputs each", calls, len(rule[0]), NMC)
                sc = 1.0 + abs(av) + np.max(np.abs(g.values(rule[0].dot(W1.T))))
                close(mu / sc, av / sc, 1e-9 if name != "physical units" else 1e-7, what="integral from {}".format(name))
                close(np.array([lo, hi]) / sc, np.array([mu, mu]) / sc, 1e-6,
                      what="interval of the integral without variation")
                ctx.count("transitions")
                if kind == "unbounded" and g.degree is not None and 2 * p - 1 >= g.degree:
                    close(mu / sc, gaussian(g, g.A.shape[1]) / sc, 1e-8, what="integral of a polynomial, {} nodes".format(N))
                ctx.state(g.name, N, NMC, name, mu)

    def run(ch):
        with scripted(policies_of(ch, 3)):
            return integrals.integrate(g.one, mp, (2 if kind == "unbounded" else 3) ** (n if kind == "unbounded" else 1), NMC=2)
    if kind == "unbounded" or n == 1:
        got = list(explore(run, 2 if thorough else 1, ctx.stats))
        for c, (mu, lo, hi) in got:
            sc = 1.0 + abs(mu)
            fail(hi - lo > 1e-6 * sc, "interval {} {} without variation, {}", lo, hi, c)
            if kind == "unbounded":
                close(mu / sc, got[0][1][0] / sc, 1e-9, what="integral for other random answers, {}".format(c))


class Remembers(rs.RadialBasisApproximation):
    def train(self, X, f, v=None, e=None):
        self.got = (np.array(X), np.array(f), None if v is None else np.array(v))
        rs.RadialBasisApproximation.train(self, X, f, v=v, e=e)


def surface(ctx, g, mp, kind, X, n):
    f = g.values(X)
    m = X.shape[1]
    T = np.vstack((data.weyl(6, m, 8.0), np.zeros((1, m)), 2.0 * data.weyl(2, m, 9.0)))
    if g.degree is not None:
        want, slope = g.values(T), g.slopes(T)
        sc, gs = np.max(np.abs(want)) + np.max(np.abs(f)), np.max(np.abs(slope)) + 1e-12
        for N in range(g.degree, min(g.degree + 2, 4)):
            if math.comb(n + N, N) * 2 > len(X):
                continue
            for how in ("data", "interface"):
                r = response_surfaces.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=N))
                if how == "data":
                    r.train_with_data(X, f)
                elif kind == "unbounded" or n == 1:
                    seeded(lambda: r.train_with_interface(g.one, (N + 1) ** n if kind == "unbounded" else 3 * (N + 1), NMC=2))
                elif N == g.degree:
                    seeded(lambda: r.train_with_interface(g.one, 2 * math.comb(n + N, N), NMC=1))
                else:
                    continue
                if N > g.degree and how == "interface":
                    tol = 1e-5
                else:
                    tol = 1e-7
                p, d = r.predict(T, compgrad=True)
                close(p / sc, want / sc, tol, what="degree {} surface from {}: prediction".format(N, how))
                close(d / gs, slope / gs, 10 * tol, what="degree {} surface from {}: gradient".format(N, how))
                close(r(T) / sc, want / sc, tol, what="call")
                fail(abs(r.respsurf.Rsqr - 1.0) > 1e-6, "coefficient of determination {} of an exact surface", r.respsurf.Rsqr)
                ctx.count("transitions")
                ctx.state(g.name, N, how, p)
    # what the radial basis surface is given
    if n <= 2:
        surf = Remembers(N=1)
        r = response_surfaces.ActiveSubspaceResponseSurface(mp, surf)
        seeded(lambda: r.train_with_interface(g.one, 9 if kind == "unbounded" else 6, NMC=3))
        W1 = np.array(mp.domain.subspaces.W1)
        Yt, ft, vt = surf.got
        want = g.values(Yt.dot(W1.T))
        sc = 1.0 + np.max(np.abs(want))
        close(ft / sc, want / sc, 1e-9, what="outputs the surface is trained with")
        fail(vt is not None and np.any(np.abs(vt) > 1e-16 * sc ** 2), "noise {} although nothing varies", vt)
    # any surface is a function of the same combinations: moving across them changes nothing
    P = projector(g.A)
    r = response_surfaces.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
    r.train_with_data(X, f)
    sc = np.max(np.abs(r(T))) + 1e-12
    close(r(T.dot(P)) / sc, r(T) / sc, 1e-6, what="prediction at the projected inputs")
    G = r.gradient(T)
    gs = np.max(np.abs(G)) + 1e-12
    close(G.dot(P) / gs, G / gs, 1e-6, what="gradient in the span of the directions")


def minimum(ctx, g, mp, kind, X):
    where, low = g.low
    if kind == "unbounded" and where == "vertex":
        return
    f = g.values(X)
    sc = np.max(f) - np.min(f) + 1.0
    r = response_surfaces.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
    r.train_with_data(X, f)
    xs, fs = optimizers.minimize(r, X, f)
    fail(np.shape(xs) != (1, X.shape[1]), "minimizer has shape {}", np.shape(xs))
    close(float(np.ravel(fs)[0]) / sc, low / sc, 2e-5, what="minimum of the function")
    close(g.values(xs)[0, 0] / sc, low / sc, 2e-5, what="function at the minimizer")
    if kind == "bounded":
        fail(np.any(np.abs(xs) > 1 + 1e-6), "minimizer {} outside the hypercube", xs)
    close(float(r(xs)[0, 0]) / sc, float(np.ravel(fs)[0]) / sc, 2e-5, what="surface at the minimizer")
    ctx.state(g.name, fs)


def long_designs(ctx, kind, m, k):
    """Many points at once, and outputs that vary little around a large value."""
    for nm, A in directions(kind, m, k):
        if nm not in ("rotation", "units"):
            continue
        for g in profiles(A):
            if g.name not in ("definite", "waves", "even"):
                continue
            desc = {"kind": kind, "m": m, "k": k, "directions": nm, "profile": g.name}
            X = data.weyl(120, m, 2.0)
            s = subspaces.Subspaces()
            s.compute(df=g.slopes(X))
            s.partition(k)
            W1 = np.array(s.W1)
            mp = the_map(kind, s)
            for NY, N in ((1, 120), (60, 10), (200, 1), (1001, 1)) if kind == "unbounded" else ((1, 60), (40, 3), (120, 1)):
                with ctx.case(dict(desc, NY=NY, N=N)):
                    Y = (0.8 * data.weyl(NY, m, 4.0)).dot(W1)
                    Xi, ind = seeded(lambda: mp.inverse(Y, N))
                    close(Xi.dot(W1), np.repeat(Y, N, axis=0), 1e-12, what="active variables of the inputs")
                    want = g.values(Y.dot(W1.T))
                    f = simrunners.SimulationRunner(g.one).run(Xi)
                    sc = np.max(np.abs(want))
                    close(f / sc, np.repeat(want, N, axis=0) / sc, 1e-12, what="values")
                    Ef, Vf = misc.conditional_expectations(f, ind)
                    close(Ef / sc, want / sc, 1e-12, what="conditional expectations")
                    fail(np.any(Vf > 1e-22 * sc ** 2), "conditional variances {} although nothing varies", np.max(Vf))
                    ctx.count("transitions", NY * N)
            if k == 1 or kind == "unbounded":
                for per, NMC in ((30, 10),) if k == 1 else ((12, 5),):
                    with ctx.case(dict(desc, nodes=per, NMC=NMC)):
                        mu, lo, hi = seeded(lambda: integrals.integrate(g.one, mp, per ** k, NMC=NMC))
                        av = seeded(lambda: integrals.av_integrate(lambda y: g.values(y.dot(W1.T))[0, 0], mp, per ** k))
                        close(mu / (1 + abs(av)), av / (1 + abs(av)), 1e-11, what="integral")
                        fail(hi - lo > 1e-10 * (1 + abs(av)), "interval [{}, {}] without variation", lo, hi)
            for off, size in ((1e6, 1e-3), (-1e4, 1e-4), (1e3, 1e3), (0.0, 1e-9), (1e9, 1.0)):
                with ctx.case(dict(desc, offset=off, size=size)):
                    T = data.weyl(7, m, 8.0)
                    f = off + size * g.values(X)
                    noise = 1e-13 * (abs(off) / size + 1)
                    e = g.slopes(X)
                    u = subspaces.Subspaces()
                    u.compute(df=size * e)
                    spans(u.eigenvals, u.eigenvecs, g, k, "from small gradients")
                    if g.degree == 2:
                        u.compute(X=X, f=f, sstype="QPHD")
                        spans(u.eigenvals, u.eigenvecs, g, k, "quadratic model", max(1e-7, 100 * noise))
                        r = response_surfaces.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
                        r.train_with_data(X, f)
                        gs = np.max(np.abs(e))
                        close(r.gradient(T) / size / gs, g.slopes(T) / gs, 100 * noise + 1e-8, what="gradient of the surface")
                        close((r(T) - off) / size, g.values(T), (100 * noise + 1e-8) * np.max(np.abs(g.values(X))),
                              what="surface")
                        fail(abs(r.respsurf.Rsqr - 1) > 1e-6 + noise ** 2 * 1e4, "Rsqr {} of an exact surface", r.respsurf.Rsqr)
                    ctx.state(nm, g.name, off, size)


def jobs(tier):
    big = tier == "thorough"
    J = []
    J.append(Job("unbounded m=10 k=1 many samples", pipeline, "unbounded", 10, 1, 1000, False))
    J.append(Job("unbounded m=5 k=2 many samples", pipeline, "unbounded", 5, 2, 1025, False))
    J.append(Job("bounded m=5 k=1 many samples", pipeline, "bounded", 5, 1, 1000, False))
    for kind, m, k in (("unbounded", 3, 1), ("unbounded", 4, 2), ("bounded", 3, 1), ("bounded", 3, 2)) + (
            (("unbounded", 5, 3), ("bounded", 4, 2), ("unbounded", 10, 2)) if big else ()):
        J.append(Job("long {} m={} k={}".format(kind, m, k), long_designs, kind, m, k))
    for m in (2, 3, 4) + ((5, 6) if big else ()):
        for k in range(1, min(m, 3) + 1):
            for kind in ("unbounded", "bounded"):
                if kind == "bounded" and k == 3 and not (big and m <= 5):
                    continue
                J.append(Job("{} m={} k={}".format(kind, m, k), pipeline, kind, m, k, 60, big))
    for m, k in ((8, 1), (12, 2), (20, 1)) + (((33, 1), (16, 3)) if big else ()):
        J.append(Job("unbounded m={} k={}".format(m, k), pipeline, "unbounded", m, k, 120 if m < 12 else 250, False))
    J.append(Job("bounded m=8 k=1", pipeline, "bounded", 8, 1, 120, False))
    return J
