"""C28: results follow the inputs when these are relabeled, mirrored, reordered or expressed in other units."""
import itertools

import numpy as np
from scipy.special import ndtri

import data
from c08 import the_map
from core import Job, close, fail, scripted
from sut import (designs, domains, gradients, integrals, misc, optimizers, quadrature, qp_solver, response_surfaces, rs,
                 seeded, simrunners, subspaces)

LEVEL = "model_checking"
RULE = ("every permutation of the inputs with every choice of mirrored inputs (up to four inputs; selected ones above), rotations "
        "where inputs are unbounded, every order of up to five samples, changes of units of inputs and outputs of either "
        "sign over twelve orders of magnitude; every method; pairs of runs with the same random answers compared with each other")
ASSUMPTIONS = ["eigenvectors are compared where eigenvalues are separated, minimizers where they are unique"]


def group(m, full=4):
    """Orthogonal matrices that permute and mirror the inputs."""
    if m <= full:
        perms = list(itertools.permutations(range(m)))
    else:
        ident = list(range(m))
        perms = [tuple(ident[::-1]), tuple(ident[1:] + ident[:1]), tuple([1, 0] + ident[2:]), tuple(ident[:-2] + [m - 1, m - 2])]
    if m <= 3:
        signs = list(itertools.product((1, -1), repeat=m))
    else:
        signs = [(1,) * m, (-1,) * m, (-1,) + (1,) * (m - 1), tuple((-1) ** j for j in range(m))]
    for p in perms:
        for s in signs:
            Q = np.zeros((m, m))
            for i, j in enumerate(p):
                Q[i, j] = s[i]
            yield "order {} signs {}".format(p, s), Q


def turns(m):
    yield "turn", data.ortho(m, 2.5)
    yield "turn 2", data.ortho(m, 4.5).T


UNITS = [(2.0, 0.0), (-1.0, 0.0), (-3.0, 7.0), (1.0, 100.0), (1e-6, 0.0), (1e6, -5.0), (0.1, 1.0), (1e-12, 0.0), (-1e9, 1e9)]


class Data:
    def __init__(self, X, f, df, w):
        self.X, self.f, self.df, self.w = X, f, df, w


def problem(m, M, which, scale=1.0):
    X = scale * data.weyl(M, m, 2.0)
    a = np.linspace(1.0, 2.0, m) * np.resize([1, -1, 0.5], m)
    T = X.dot(a)[:, None]
    if which == "smooth":
        f = np.sin(T) + 0.3 * X[:, :1] ** 2 * X[:, -1:]
        df = np.cos(T) * a
        df[:, 0] += 0.6 * X[:, 0] * X[:, -1]
        df[:, -1] += 0.3 * X[:, 0] ** 2
    elif which == "quadratic":
        H = np.diag(1.0 + np.arange(m)) + 0.2
        f = (T + 0.5 * np.sum(X.dot(H) * X, axis=1, keepdims=True))
        df = a + X.dot(H)
    else:
        f = data.weyl(M, 1, 5.0)
        df = data.weyl(M, m, 6.0) * 2.0 ** -np.arange(m)
    w = (1.0 + np.arange(M) % 4).reshape(-1, 1) / (2.5 * M)
    return Data(X, f, df, w)


def compute(d, st, policy=None, nboot=0, ptype="EVG", weighted=True):
    s = subspaces.Subspaces()
    k = dict(sstype=st, nboot=nboot, ptype=ptype)
    if weighted:
        k["weights"] = d.w.copy()
    if st == "AS":
        k["df"] = d.df.copy()
    else:
        k["X"], k["f"] = d.X.copy(), d.f.copy()
    with scripted(policy if policy is not None else hashed(9.0)):
        s.compute(**k)
    return s


def gaps(e):
    e = np.ravel(e)
    return [n for n in range(1, len(e)) if e[n - 1] - e[n] > 1e-4 * e[0] and (e[n - 1] - e[n]) > 1e-3 * e[n - 1]]


def agree(s, t, Q, a, what, tol=1e-7, dims=True):
    """t is what s is, in inputs turned by Q (x' = x Q) and outputs scaled by a."""
    e0 = max(s.eigenvals[0, 0], 1e-300)
    close(t.eigenvals / (a * a * e0), s.eigenvals / e0, tol, what=what + ": eigenvalues")
    for n in gaps(s.eigenvals):
        P, R = (v.eigenvecs[:, :n].dot(v.eigenvecs[:, :n].T) for v in (s, t))
        close(R, Q.T.dot(P).dot(Q), 1e4 * tol, what=what + ": subspace of dimension {}".format(n))
    if s.e_br is not None:
        close(t.e_br / (a * a * e0), s.e_br / e0, tol, what=what + ": bootstrap ranges")
        for n in gaps(s.eigenvals):
            if s.e_br[n - 1, 0] > 1.001 * s.e_br[n, 1]:      # separated in every replicate
                close(t.sub_br[n - 1], s.sub_br[n - 1], 1e4 * tol, what=what + ": distances")
    if dims:
        fail(s.W1.shape != t.W1.shape, "{}: dimension {} instead of {}", what, t.W1.shape, s.W1.shape)


def clear(e):
    """The largest gap is unique."""
    d = np.sort(np.abs(np.diff(np.ravel(e))))
    return len(d) < 2 or d[-1] > 1.001 * d[-2]


def methods(m, M):
    yield "AS"
    if M > m + 1:
        yield "OLS"
    if M >= (m + 1) * (m + 2) // 2:
        yield "QPHD"
    if M > int(1.7 * m) + 1 and m > 1:
        yield "OPG"


def turned(ctx, m, Ms):
    for M in Ms:
        for which in ("smooth", "quadratic", "noise"):
            for scale in (1.0, 1.7):
                d = problem(m, M, which, scale)
                for st in methods(m, M):
                    nb = 0 if st == "OPG" else 3       # repeated samples are equally near
                    base = compute(d, st, nboot=nb)
                    for nm, Q in itertools.chain(group(m), turns(m) if st != "QPHD" else ()):
                        with ctx.case({"m": m, "M": M, "data": which, "scale": scale, "method": st, "inputs": nm}):
                            t = compute(Data(d.X.dot(Q), d.f, d.df.dot(Q), d.w), st, nboot=nb)
                            agree(base, t, Q, 1.0, "after the change of inputs", 1e-8 if st in ("AS", "OLS") else 1e-6,
                                  clear(base.eigenvals))
                            ctx.state(nm, st, which, t.eigenvals)
                            ctx.count("transitions")
        ctx.sample({"m": m, "M": M})


def reordered(ctx, m, M, orders):
    for which in ("smooth", "quadratic", "noise", "one sample outside"):
        d = problem(m, M, which if which != "one sample outside" else "quadratic", 1.0)
        if which == "one sample outside":
            d.X[M // 2, 0] = -1.5
        for st in methods(m, M):
            if st == "OPG":
                continue
            base = compute(d, st)
            for p in orders:
                p = list(p)
                with ctx.case({"m": m, "M": M, "data": which, "method": st, "samples": p[:12]}):
                    t = compute(Data(d.X[p], d.f[p], d.df[p], d.w[p]), st)
                    agree(base, t, np.eye(m), 1.0, "after reordering the samples", 1e-8, clear(base.eigenvals))
                    ctx.state(st, which, p)
                    ctx.count("transitions")
        # surfaces
        for N in (1, 2):
            if M < (m + 1) * (m + 2) // 2 and N == 2 or M < m + 1:
                continue
            r = rs.PolynomialApproximation(N=N)
            r.train(d.X, d.f, weights=d.w)
            T = data.weyl(5, m, 8.0)
            for p in orders:
                p = list(p)
                with ctx.case({"m": m, "M": M, "data": which, "surface": N, "samples": p[:12]}):
                    q = rs.PolynomialApproximation(N=N)
                    q.train(d.X[p], d.f[p], weights=d.w[p])
                    close(q(T), r(T), 1e-8, what="prediction after reordering")
                    close(q.gradient(T), r.gradient(T), 1e-8, what="gradient after reordering")
                    close(q.Rsqr, r.Rsqr, 1e-8, what="coefficient of determination after reordering")
                    close(r(T[::-1]), r(T)[::-1], 1e-12, what="prediction at points in another order")
        ind = (np.arange(M) % 3).reshape(-1, 1) if M > 2 else np.zeros((M, 1))
        E, V = misc.conditional_expectations(d.f, ind)
        for p in orders:
            p = list(p)
            with ctx.case({"M": M, "data": which, "conditional": True, "samples": p[:12]}):
                E1, V1 = misc.conditional_expectations(d.f[p], ind[p])
                close(E1, E, 1e-12, what="averages after reordering")
                close(V1, V, 1e-12, what="variances after reordering")


def hashed(phase):
    """Answers without structure, others for every draw."""
    count = itertools.count()

    def policy(kind, params, shape):
        n = int(np.prod(shape)) if len(shape) else 1
        u = (data.weyl(n, 1, phase + 1.7 * next(count)).reshape(shape) * 0.999999 + 1.0) / 2
        if kind == "normal":
            return ndtri(u)
        return np.minimum(np.floor(u * params[0]), params[0] - 1) if kind == "int" else u
    return policy


def outputs(ctx, m, M):
    for which in ("smooth", "quadratic", "noise"):
        d = problem(m, M, which, 1.0)
        for st in methods(m, M):
            nb = 0 if st == "OPG" else 3
            for ptype in ("EVG", "RS", "LI") if nb else ("EVG",):
                for phase in (20.0, 30.0, 40.0):
                    base = compute(d, st, hashed(phase), nboot=nb, ptype=ptype)
                    for a, b in UNITS:
                        with ctx.case({"m": m, "M": M, "data": which, "method": st, "partition": ptype, "units": (a, b), "answers": phase}):
                            t = compute(Data(d.X, a * d.f + b, a * d.df, d.w), st, hashed(phase), nboot=nb, ptype=ptype)
                            rel = 1e-15 * abs(b) / abs(a)
                            agree(base, t, np.eye(m), a, "in other units", 1e-7 + 1e3 * rel,
                                  clear(base.eigenvals) if ptype == "EVG" else st == "AS")
                            ctx.state(which, st, ptype, a, b, phase)
                            ctx.count("transitions")


def surfaces_turned(ctx, m):
    for which in ("smooth", "quadratic"):
        d = problem(m, 60, which, 1.0)
        T = data.weyl(5, m, 8.0)
        for name, mk, exact in [("polynomial {}".format(N), lambda N=N: rs.PolynomialApproximation(N=N), True) for N in (1, 2, 3)] + [
                ("radial {}".format(N), lambda N=N: rs.RadialBasisApproximation(N=N), False) for N in (0, 1, 2)]:
            if name == "polynomial 3" and m > 3:
                continue
            noise = np.full((60, 1), 1e-2)
            extra = {} if exact else {"v": noise}
            r = mk()
            r.train(d.X, d.f, **extra)
            p, g = r.predict(T, compgrad=True)
            sc, gs = np.max(np.abs(p)), np.max(np.abs(g))
            tol = 1e-8 if exact else 1e-5
            changes = itertools.chain(group(m, 3), turns(m))
            for nm, Q in changes:
                with ctx.case({"m": m, "data": which, "surface": name, "inputs": nm}):
                    q = mk()
                    q.train(d.X.dot(Q), d.f, **extra)
                    p1, g1 = q.predict(T.dot(Q), compgrad=True)
                    close(p1 / sc, p / sc, tol, what="prediction")
                    close(g1.dot(Q.T) / gs, g / gs, 10 * tol, what="gradient")
                    close(q.Rsqr, r.Rsqr, 1e-4 if not exact else 1e-8, what="coefficient of determination")
                    if name == "polynomial 2":
                        close(q.H / gs, Q.T.dot(r.H).dot(Q) / gs, 1e-7, what="Hessian")
                        close(q.g / gs, Q.T.dot(r.g) / gs, 1e-7, what="gradient at the origin")
                    ctx.state(name, nm, which, p1)
                    ctx.count("transitions")
            for a, b in UNITS if exact else ((2.0, 0.0), (-1.0, 0.0), (-3.0, 7.0), (0.5, -1.0)):
                with ctx.case({"m": m, "data": which, "surface": name, "units": (a, b)}):
                    q = mk()
                    q.train(d.X, a * d.f + b, **extra)
                    p1, g1 = q.predict(T, compgrad=True)
                    rel = 1e-13 * abs(b) / (abs(a) * sc)
                    close((p1 - b) / (a * sc), p / sc, tol + rel, what="prediction in other units")
                    close(g1 / (a * gs), g / gs, 10 * (tol + rel * sc / gs), what="gradient in other units")
                    if exact:
                        close(q.Rsqr, r.Rsqr, 1e-8 + 1e3 * rel, what="coefficient of determination in other units")
            if exact:
                for c, t in ((2.0, 0.0), (-0.5, 1.0), (3.0, -2.0)):
                    with ctx.case({"m": m, "data": which, "surface": name, "input units": (c, t)}):
                        D = c * (1.0 + 0.5 * np.arange(m))
                        q = mk()
                        q.train(d.X * D + t, d.f)
                        p1, g1 = q.predict(T * D + t, compgrad=True)
                        close(p1 / sc, p / sc, 1e-6, what="prediction for other units of the inputs")
                        close(g1 * D / gs, g / gs, 1e-5, what="gradient for other units of the inputs")
                        close(q.Rsqr, r.Rsqr, 1e-6, what="coefficient of determination for other units of the inputs")


def fitted(df, n):
    s = subspaces.Subspaces()
    s.compute(df=df)
    s.partition(n)
    return s


def domain_turned(ctx, kind, m, n):
    d = problem(m, 30, "noise")
    s = fitted(d.df, n)
    mp = the_map(kind, s)
    X = 0.9 * data.weyl(6, m, 3.0)
    Y, Zz = mp.forward(X)
    for nm, Q in itertools.chain(group(m, 3), turns(m) if kind == "unbounded" else ()):
        with ctx.case({"kind": kind, "m": m, "n": n, "inputs": nm}):
            t = fitted(d.df.dot(Q), n)
            sg = np.sign(np.sum(t.W1 * Q.T.dot(s.W1), axis=0))
            close(t.W1, Q.T.dot(s.W1) * sg, 1e-7, what="active directions")
            mt = the_map(kind, t)
            Yt, Zt = mt.forward(X.dot(Q))
            close(Yt, Y * sg, 1e-7, what="active variables")
            if kind == "bounded":
                A = sorted(map(tuple, np.round(mp.domain.vertY * sg, 6) + 0.0))
                B = sorted(map(tuple, np.round(mt.domain.vertY, 6) + 0.0))
                fail(len(A) != len(B), "{} vertices instead of {}", len(B), len(A))
                for v in mp.domain.vertY * sg:
                    fail(np.min(np.max(np.abs(mt.domain.vertY - v), axis=1)) > 1e-6, "vertex {} is missing", v)
                if n > 1:
                    for y in np.vstack((0.5 * mp.domain.vertY, 1.5 * mp.domain.vertY)):
                        u, v = (np.all(mm.domain.constraints["fun"](yy) >= 0) if isinstance(mm.domain.constraints, dict) else None
                                for mm, yy in ((mp, y), (mt, y * sg)))
                        fail(u != v, "point {} is inside only before the change", y)
            Xt, ind = seeded(lambda: mt.inverse(Yt, 3))
            close(mt.forward(Xt)[0], np.repeat(Y * sg, 3, axis=0), 1e-6, what="inverse")
            # functions of the active variables integrate to the same
            if kind == "unbounded" or n == 1:
                def even(y):
                    return float(np.sum(np.cos(y * (1.0 + np.arange(n)))))
                N = 4 ** n if kind == "unbounded" else 6
                p, q = (seeded(lambda: integrals.av_quadrature_rule(z, N)) for z in (mp, mt))
                close(np.sort(p[0] * sg, axis=0), np.sort(q[0], axis=0), 1e-6, what="nodes")
                if kind == "unbounded":
                    close(integrals.av_integrate(even, mt, N), integrals.av_integrate(even, mp, N), 1e-9, what="integral")
            ctx.state(nm, n, Yt)
            ctx.count("transitions")
    # output units of integrals
    def base(x):
        return float(np.sin(np.sum(x)) + x[0, 0] ** 2)
    for N in ((1, 3 ** n) if kind == "unbounded" else (3, 6) if n == 1 else (4,)):
        for NMC in (1, 4):
            mu, lo, hi = seeded(lambda: integrals.integrate(base, mp, N, NMC=NMC))
            for a, b in UNITS:
                with ctx.case({"kind": kind, "m": m, "n": n, "N": N, "NMC": NMC, "units": (a, b)}):
                    g = seeded(lambda: integrals.integrate(lambda x: a * base(x) + b, mp, N, NMC=NMC))
                    want = np.array([a * mu + b] + sorted((a * lo + b, a * hi + b)))
                    sc = abs(a) * (1 + abs(mu) + hi - lo) + abs(b)
                    close(np.array(g) / sc, want / sc, 1e-7, what="integral and bounds in other units")
                    ctx.state(N, NMC, a, b, kind)
    # minimum
    if kind == "bounded" or n <= m:
        Xs = data.weyl(60, m, 2.0)
        cy = (0.3 * data.weyl(1, m, 7.0)).dot(s.W1)

        def f(XX, W1):
            return np.sum((XX.dot(W1) - cy) ** 2 * (1.0 + np.arange(n)), axis=1, keepdims=True)
        F = f(Xs, s.W1)
        r = response_surfaces.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
        r.train_with_data(Xs, F)
        x0, f0 = optimizers.minimize(r, Xs, F)
        for nm, Q in list(group(m, 2))[::3]:
            with ctx.case({"kind": kind, "m": m, "n": n, "minimum": nm}):
                t = fitted(d.df.dot(Q), n)
                mt = the_map(kind, t)
                q = response_surfaces.ActiveSubspaceResponseSurface(mt, rs.PolynomialApproximation(N=2))
                q.train_with_data(Xs.dot(Q), F)
                x1, f1 = optimizers.minimize(q, Xs.dot(Q), F)
                close(np.ravel(f1), np.ravel(f0), 1e-5, what="minimum after the change of inputs")
                close(x1.dot(Q.T).dot(s.W1), x0.dot(s.W1), 3e-3, what="active variables of the minimizer")
                ctx.count("transitions")
        for a, b in ((2.0, 0.0), (0.5, 3.0), (10.0, -7.0)):
            with ctx.case({"kind": kind, "m": m, "n": n, "minimum in units": (a, b)}):
                q = response_surfaces.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
                q.train_with_data(Xs, a * F + b)
                x1, f1 = optimizers.minimize(q, Xs, a * F + b)
                close(np.ravel(f1) / a, (a * np.ravel(f0) + b) / a, 1e-5, what="minimum in other units")
                close(x1.dot(s.W1), x0.dot(s.W1), 3e-3, what="minimizer in other units")


def small_tools(ctx):
    for m in (1, 2, 3, 4):
        lb = np.resize([-3.0, 0.0, 10.0, -1e3], m)
        ub = np.resize([5.0, 1e-3, 11.0, 1e3], m)
        X = lb + (ub - lb) * (data.weyl(5, m, 1.0) * 0.6 + 0.5)
        N0 = misc.BoundedNormalizer(lb, ub).normalize(X)
        for p in itertools.permutations(range(m)):
            p = list(p)
            with ctx.case({"normalizer": "bounded", "order": p}):
                nz = misc.BoundedNormalizer(lb[p], ub[p])
                close(nz.normalize(X[:, p]), N0[:, p], 1e-12, what="normalized inputs in another order")
                close(nz.unnormalize(N0[:, p]), X[:, p], 1e-12, what="inputs in another order")
                ctx.state("bn", p)
        for c, t in ((1e3, 0.0), (1e-3, 2.0), (1.8, 32.0), (1e-9, 0.0), (1e9, 0.0), (-1.0, 0.0)):
            with ctx.case({"normalizer": "bounded", "m": m, "units": (c, t)}):
                if c < 0:       # mirrored
                    nz = misc.BoundedNormalizer(c * ub, c * lb)
                    close(nz.normalize(c * X), -N0, 1e-9, what="normalized mirrored inputs")
                    close(nz.unnormalize(-N0), c * X, 1e-9, what="mirrored inputs")
                    continue
                nz = misc.BoundedNormalizer(c * lb + t, c * ub + t)
                tol = 1e-9 * (1 + abs(t) / (c * 1e-3))
                close(nz.normalize(c * X + t), N0, tol, what="normalized inputs in other units")
                close((nz.unnormalize(N0) - t) / c, X, tol, what="inputs in other units")
                ctx.state("bu", m, c, t)
        A = data.weyl(m, m, 4.0) + 2 * np.eye(m)
        C = A.dot(A.T)
        mu = data.weyl(1, m, 5.0)
        N0 = misc.UnboundedNormalizer(mu, C).normalize(X / 100)
        for c, t in ((1e3, 0.0), (1e-3, 2.0), (1.8, 32.0), (1e-9, 0.0), (1e9, 0.0), (-1.0, 0.0)):
            with ctx.case({"normalizer": "unbounded", "m": m, "units": (c, t)}):
                nz = misc.UnboundedNormalizer(c * mu + t, c * c * C)
                close(nz.normalize(c * X / 100 + t), np.sign(c) * N0, 1e-8 * (1 + abs(t) / abs(c)), what="normalized inputs in other units")
                close((nz.unnormalize(np.sign(c) * N0) - t) / c, X / 100, 1e-8 * (1 + abs(t) / abs(c)), what="inputs in other units")
                ctx.state("uu", m, c, t)
        # finite differences
        for p in itertools.permutations(range(m)):
            p = list(p)
            inv = np.argsort(p)
            with ctx.case({"finite differences": p}):
                def f(x):
                    return float(np.sin(x).dot(1.0 + np.arange(m))[0] + x[0, 0] * x[0, -1])
                Z = data.weyl(4, m, 3.0)
                D = gradients.finite_difference_gradients(Z, f)
                D1 = gradients.finite_difference_gradients(Z[:, p], lambda x: f(x[:, inv]))
                close(D1, D[:, p], 1e-6, what="differences for another order of the inputs")
                D2 = gradients.finite_difference_gradients(Z[::-1], f)
                close(D2, D[::-1], 1e-12, what="differences for another order of the samples")
                D3 = gradients.finite_difference_gradients(Z, lambda x: -3 * f(x) + 2)
                close(D3, -3 * D, 1e-6, what="differences in other units")
                close(simrunners.SimulationRunner(f).run(Z[::-1]), simrunners.SimulationRunner(f).run(Z)[::-1], 1e-14, what="runs")
                ctx.state("fd", p)
    # rules
    for k in (1, 2, 3):
        for Ns in itertools.product((1, 2, 3, 5), repeat=k):
            Yp, w = quadrature.gauss_hermite(list(Ns))
            ref = sorted(tuple(np.round(np.r_[y, v], 9) + 0.0) for y, v in zip(Yp, w[:, 0]))
            for p in itertools.permutations(range(k)):
                p = list(p)
                with ctx.case({"gauss_hermite": Ns, "order": p}):
                    Y1, w1 = quadrature.gauss_hermite([Ns[i] for i in p])
                    back = np.empty(Y1.shape)
                    back[:, p] = Y1
                    got = sorted(tuple(np.round(np.r_[y, v], 9) + 0.0) for y, v in zip(back, w1[:, 0]))
                    fail(len(got) != len(ref) or np.max(np.abs(np.array(got) - np.array(ref))) > 1e-8, "rule in another order of the variables")
                    ctx.state("gh", Ns, p)
    for N in (1, 2, 5, 11):
        for a, b in ((-1.0, 1.0), (0.0, 3.0)):
            y = designs.interval_design(a, b, N)
            for c, t in ((1e-3, 0.0), (1e3, 5.0), (2.5, -10.0)):
                with ctx.case({"interval design": N, "interval": (a, b), "units": (c, t)}):
                    close(designs.interval_design(c * a + t, c * b + t, N), c * y + t, 1e-12, what="design in other units")
                    ctx.state("id", N, a, c)
    # programs
    for n in (2, 3):
        A = np.vstack((np.eye(n), -np.eye(n), -data.weyl(2, n, 3.0)))
        b = np.concatenate((-np.ones(2 * n), [-0.7, -0.9])).reshape(-1, 1)
        c = data.weyl(n, 1, 4.0) + 0.1
        H = np.diag(1.0 + np.arange(n)) + 0.3
        q = qp_solver.QPSolver()
        x = q.linear_program_ineq(c, A, b)
        z = q.quadratic_program_ineq(c, H, A, b)
        y = q.quadratic_program_bnd(c, H, -0.4 * np.ones((n, 1)), 0.3 * np.ones((n, 1)))
        for nm, Q in group(n):
            with ctx.case({"programs": n, "variables": nm}):
                close(q.linear_program_ineq(Q.T.dot(c), A.dot(Q), b), Q.T.dot(x), 1e-6, what="linear program")
                close(q.quadratic_program_ineq(Q.T.dot(c), Q.T.dot(H).dot(Q), A.dot(Q), b), Q.T.dot(z), 1e-4, what="quadratic program")
                lo, hi = Q.T.dot(-0.4 * np.ones((n, 1))), Q.T.dot(0.3 * np.ones((n, 1)))
                close(q.quadratic_program_bnd(Q.T.dot(c), Q.T.dot(H).dot(Q), np.minimum(lo, hi), np.maximum(lo, hi)), Q.T.dot(y), 1e-4,
                      what="quadratic program with bounds")
                ctx.state("qp", n, nm)
        for p in itertools.islice(itertools.permutations(range(len(A))), 0, None, 997 if n == 2 else 9973):
            p = list(p)
            with ctx.case({"programs": n, "constraints": p}):
                close(q.linear_program_ineq(c, A[p], b[p]), x, 1e-6, what="linear program")
                close(q.quadratic_program_ineq(c, H, A[p], b[p]), z, 1e-4, what="quadratic program")
        for k in (1e-11, 1e-8, 1e-6, 1e-3, 0.5, 7.0, 1e3, 1e6, 1e8):
            with ctx.case({"programs": n, "objective times": k}):
                close(q.linear_program_ineq(k * c, A, b), x, 1e-6, what="linear program")


def input_units(ctx, m, M):
    """Gradients from linear models, and slopes, when the inputs are measured in other units."""
    for which in ("smooth", "noise"):
        d = problem(m, M, which, 1.0)

        def local(X):
            with scripted(hashed(9.0)):
                return gradients.local_linear_gradients(X, d.f)
        def slopes(X, st):
            s = subspaces.Subspaces()
            with scripted(hashed(9.0)):
                s.compute(X=X, f=d.f, sstype=st)
            return s
        base = local(d.X)
        sc = np.max(np.abs(base))
        for c, t in ((1e-7, 0.0), (1e-4, 0.0), (1e-2, 0.5), (1.0, -3.0), (100.0, 20.0), (1e4, 0.0), (1e7, 0.0), (-2.0, 0.0)):
            with ctx.case({"m": m, "M": M, "data": which, "input units": (c, t)}):
                got = local(c * d.X + t)
                close(got * c / sc, base / sc, 1e-5, what="gradients in other units of the inputs")
                for st in ("OLS", "OPG"):
                    a, b = slopes(d.X, st), slopes(c * d.X + t, st)
                    close(b.eigenvals * c * c / a.eigenvals[0, 0], a.eigenvals / a.eigenvals[0, 0], 1e-5,
                          what="{} eigenvalues in other units of the inputs".format(st))
                    close(b.eigenvecs[:, :1].dot(b.eigenvecs[:, :1].T), a.eigenvecs[:, :1].dot(a.eigenvecs[:, :1].T), 1e-3 if not clear(a.eigenvals) else 1e-4,
                          what="{} direction in other units of the inputs".format(st))
                ctx.state(which, c, t, m)
                ctx.count("transitions")


def tiny_components(ctx, m):
    """Interval domains whose direction has components of very different sizes and all signs."""
    for sizes in itertools.product((1.0, 1e-2, 1e-4, 1e-7, 1e-10), repeat=m):
        if max(sizes) < 1:
            continue
        w = np.array(sizes) * (1 + 0.3 * data.weyl(1, m, 2.0)[0])
        w /= np.sqrt(np.sum(w * w))
        Q = np.eye(m)
        Q[:, 0] = w
        ref = None
        for signs in itertools.product((1, -1), repeat=m):
            with ctx.case({"component sizes": sizes, "signs": signs}):
                v = (w * signs)[:, None]
                Y, X = domains.interval_endpoints(v)
                close(Y, [[-np.sum(w)], [np.sum(w)]], 1e-14, what="endpoints of a mirrored direction")
                close(X.dot(v), Y, 1e-14, what="corners of a mirrored direction")
                if ref is None:
                    ref = X
                close(X * signs * np.sign(X[1, 0] * signs[0]), ref * np.sign(ref[1, 0]), 1e-14, what="corners")
                s = subspaces.Subspaces()
                s.compute(df=v.T.copy())
                s.partition(1)
                d = domains.BoundedActiveVariableDomain(s)
                close(d.vertY, Y, 1e-12, what="endpoints of the domain")
                ctx.state(sizes, signs)


def jobs(tier):
    big = tier == "thorough"
    J = []
    for m in (1, 2, 3, 4, 5, 8) + ((6, 12) if big else ()):
        if m > 1:
            J.append(Job("inputs m={}".format(m), turned, m, (20, 60) if m < 5 else (3 * (m + 1) * (m + 2) // 2,)))
    for m in (2, 3):
        for M in (1, 2, 3, 4, 5) + ((6,) if big else ()):
            J.append(Job("samples m={} M={}".format(m, M), reordered, m, M, list(itertools.permutations(range(M)))))
    some = []
    for M in (20, 50, 101):
        i = np.arange(M)
        some = [i[::-1], np.roll(i, 1), np.roll(i, M // 2), np.argsort(data.weyl(M, 1, 1.0)[:, 0]), np.r_[i[1::2], i[::2]]]
        J.append(Job("samples m=3 M={}".format(M), reordered, 3, M, [o.tolist() for o in some]))
    for m, M in ((2, 24), (3, 40), (4, 80)) + (((6, 90), (10, 200)) if big else ()):
        J.append(Job("outputs m={}".format(m), outputs, m, M))
    for m in (1, 2, 3, 4) + ((5,) if big else ()):
        J.append(Job("surfaces m={}".format(m), surfaces_turned, m))
    for m, n in ((2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (4, 2)) + (((5, 2), (5, 3), (4, 3), (6, 2)) if big else ()):
        for kind in ("unbounded", "bounded"):
            J.append(Job("{} m={} n={}".format(kind, m, n), domain_turned, kind, m, n))
    for m, M in ((2, 20), (3, 30), (5, 60)) + (((8, 120),) if big else ()):
        J.append(Job("input units m={}".format(m), input_units, m, M))
    for m in (2, 3, 4):
        J.append(Job("tiny components m={}".format(m), tiny_components, m))
    J.append(Job("tools", small_tools))
    return J
