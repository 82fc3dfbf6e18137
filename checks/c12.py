"""C12: integration rules on the active variables are normalized and consistent."""
import itertools

import numpy as np
from scipy.optimize import linprog

import data
import history
from c11 import reference
from core import CTL, Job, close, explore, fail, same, scripted
from policies import fixed, n_axes, n_const, n_grid, n_tails, u_alternate, u_const, u_grid
from sut import domains, integrals, make_subspaces, response_surfaces, seeded, simrunners

LEVEL = "model_checking"
RULE = ("maps of both kinds x dimensions x numbers of nodes; every assignment of a few drawn inputs to the cells of the rule; "
        "whole-draw patterns; tensor rules for every number of points including exact powers; integrands as arbitrary tables "
        "of answers of the simulation; changes of partition before the rule is built")
ASSUMPTIONS = ["drawn inputs are not exactly corners of the hypercube (probability zero)",
               "the maximin design behind the bounded rule may report that SLSQP failed; such a rule is not judged"]
TOL = 1e-6
UNI = [u_grid, u_const(0.5), u_const(0.01), u_const(0.99), u_alternate]
NOR = [n_grid, n_axes, n_const(1.0), n_tails]


def the_map(kind, s):
    if kind == "bounded":
        return seeded(lambda: domains.BoundedActiveVariableMap(domains.BoundedActiveVariableDomain(s)))
    return domains.UnboundedActiveVariableMap(domains.UnboundedActiveVariableDomain(s))


def root(N, n):
    k = 1
    while (k + 1) ** n <= N:
        k += 1
    return k


class NoDesign(Exception):
    pass


def ask(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        if "SLSQP" in str(e):
            raise NoDesign()
        raise


def check_av_rule(kind, mp, N, Yp, Yw, what):
    W1 = mp.domain.subspaces.W1
    m, n = W1.shape
    K = Yp.shape[0]
    fail(Yp.shape != (K, n) or Yw.shape != (K, 1), "{}: shapes {} {}", what, Yp.shape, Yw.shape)
    fail(not np.all(Yw >= 0), "{}: negative weight {}", what, Yw)
    close(np.sum(Yw), 1.0, 1e-12, what=what + ": sum of the weights")
    if kind == "unbounded":
        k = root(N, n)
        x, w = reference("Hermite", k)
        idx = list(itertools.product(range(k), repeat=n))
        close(Yp, np.array([[x[j] for j in i] for i in idx]), 1e-10, what=what + ": nodes")
        close(Yw, np.array([[np.prod([w[j] for j in i])] for i in idx]), 1e-10, what=what + ": weights")
    elif n == 1:
        r = np.sum(np.abs(W1))
        close(Yp, (-r + (2 * r / N) * (np.arange(N) + 0.5)).reshape(N, 1), 1e-12, what=what + ": nodes")
    else:
        fail(K < 2, "{}: {} nodes", what, K)
        d = Yp[:, None, :] - Yp[None, :, :]
        dist = np.sqrt(np.sum(d * d, axis=2)) + np.eye(K)
        fail(np.min(dist) < 1e-9, "{}: nodes repeated", what)
        for y in Yp:
            fail(not in_domain(W1, y), "{}: node {} outside the domain", what, y)


def in_domain(W1, y, radius=1.0):
    m = W1.shape[0]
    r = linprog(np.zeros(m), A_eq=W1.T, b_eq=y, bounds=[(-radius, radius)] * m)
    return r.status == 0


def preimage(W1, y):
    """An input with active variables y, away from the boundary of the hypercube."""
    m = W1.shape[0]
    A = np.vstack((np.hstack((np.eye(m), -np.ones((m, 1)))), np.hstack((-np.eye(m), -np.ones((m, 1))))))
    r = linprog(np.r_[np.zeros(m), 1.0], A_ub=A, b_ub=np.zeros(2 * m), A_eq=np.hstack((W1.T, np.zeros((W1.shape[1], 1)))),
                b_eq=y, bounds=[(None, None)] * (m + 1))
    return r.x[:m]


def check_rule(kind, mp, NMC, Yp, Yw, Xp, Xw, ind, what):
    W1 = mp.domain.subspaces.W1
    m, n = W1.shape
    K = Yp.shape[0]
    fail(Xp.shape != (K * NMC, m) or Xw.shape != (K * NMC, 1), "{}: shapes {} {}", what, Xp.shape, Xw.shape)
    same(np.asarray(ind, float), np.repeat(np.arange(K), NMC).reshape(-1, 1).astype(float), what + ": index")
    close(Xp.dot(W1), np.repeat(Yp, NMC, axis=0), 1e-9, what=what + ": active variables of the nodes")
    close(Xw, np.repeat(Yw, NMC, axis=0) / NMC, 1e-13, 1e-15, what=what + ": weights")
    if kind == "bounded":
        fail(np.max(np.abs(Xp)) > 1 + TOL, "{}: node outside the hypercube by {}", what, np.max(np.abs(Xp)) - 1)


def rules(ctx, kind, m, n, Ns, NMCs):
    for ph in (0.5, 1.5):
        s = make_subspaces(data.ortho(m, ph), n=n)
        mp = the_map(kind, s)
        for N in Ns:
            for pats in (itertools.product(NOR, UNI[:1]) if kind == "unbounded" else itertools.product(NOR[:1], UNI)):
                with ctx.case({"map": kind, "m": m, "n": n, "N": N, "answers": [p.__name__ for p in pats]}):
                    try:
                        with scripted(fixed(*pats)):
                            Yp, Yw = ask(integrals.av_quadrature_rule, mp, N)
                    except NoDesign:
                        ctx.count("no_design")
                        continue
                    check_av_rule(kind, mp, N, Yp, Yw, "av_quadrature_rule")
                    ctx.state(kind, m, n, N, Yp, Yw)
                    ctx.count("transitions")
            for NMC in NMCs:
                with ctx.case({"map": kind, "m": m, "n": n, "N": N, "NMC": NMC}):
                    try:
                        with scripted(fixed()):
                            Yp, Yw = ask(integrals.av_quadrature_rule, mp, N)
                        with scripted(fixed()):
                            Xp, Xw, ind = ask(integrals.quadrature_rule, mp, N, NMC=NMC)
                        if NMC == 10:
                            with scripted(fixed()):
                                for a, b in zip(integrals.quadrature_rule(mp, N), (Xp, Xw, ind)):
                                    same(a, b, "default of ten samples")
                    except NoDesign:
                        ctx.count("no_design")
                        continue
                    check_rule(kind, mp, NMC, Yp, Yw, Xp, Xw, ind, "quadrature_rule")
                    ctx.state(kind, m, n, N, NMC, Xp)
                    ctx.count("transitions")
        ctx.sample({"map": kind, "m": m, "n": n, "nodes": Yp, "weights": Yw})


def place(rows, m):
    """Policy: the inputs drawn are the given ones; everything else is answered by patterns."""
    it = iter(rows)
    fall = fixed()

    def policy(kind, params, shape):
        if kind == "uniform" and len(shape) and shape[-1] == m:
            out = []
            for _ in range(int(np.prod(shape)) // m):
                x = next(it, None)
                if x is None:
                    return fall(kind, params, shape)
                out.append((np.asarray(x) + 1) / 2)
            return np.array(out)
        return fall(kind, params, shape)
    return policy


def cells(ctx, m, n, N, NX):
    """Every assignment of the NX drawn inputs to the nodes: the weight is the fraction at the node."""
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    mp = the_map("bounded", s)
    W1 = s.W1
    f = integrals.interval_quadrature_rule if n == 1 else integrals.zonotope_quadrature_rule
    with ctx.case({"m": m, "n": n, "N": N, "nodes": "learned"}):
        try:
            with scripted(fixed()):
                Yp, Yw = ask(f, mp, N)
        except NoDesign:
            ctx.count("no_design")
            return
        K = Yp.shape[0]
        at = [[preimage(W1, y)] for y in Yp]
        if n == 1:
            h = np.sum(np.abs(W1)) / N
            at = [[preimage(W1, y + t * h) for t in (-0.97, -0.3, 0.5, 0.97)] for y in Yp]
        else:
            for k, y in enumerate(Yp):
                at[k] += [preimage(W1, y + 1e-6 * d) for d in np.vstack((np.eye(n), -np.eye(n)))]
    if ctx.violations:
        return
    use = range(K) if K ** NX <= 3000 else range(0, K, max(1, K // 6))
    for asg in itertools.product(use, repeat=NX):
        with ctx.case({"m": m, "n": n, "N": N, "drawn in cells": asg}):
            rows = [at[k][(i + k) % len(at[k])] for i, k in enumerate(asg)]
            with scripted(place(rows, m)):
                Y2, w = f(mp, N, NX=NX)
            close(Y2, Yp, 1e-12, what="nodes")
            want = np.bincount(asg, minlength=K).reshape(K, 1) / float(NX)
            close(w, want, 1e-12, 1e-14, what="weights")
            ctx.state(n, N, asg)
            ctx.count("transitions")
    # default number of draws: cell k gets every draw whose number is k modulo something
    with ctx.case({"m": m, "n": n, "N": N, "drawn": "10000"}):
        cnt = itertools.count()
        seen = []

        def policy(kind, params, shape):
            if kind == "uniform" and len(shape) and shape[-1] == m:
                out = []
                for _ in range(int(np.prod(shape)) // m):
                    i = next(cnt)
                    k = (i * i + i // 7) % K
                    seen.append(k)
                    out.append((at[k][i % len(at[k])] + 1) / 2)
                return np.array(out)
            return fixed()(kind, params, shape)
        with scripted(policy):
            Y2, w = integrals.av_quadrature_rule(mp, N)
        close(Y2, Yp, 1e-12, what="nodes")
        close(w, np.bincount(seen, minlength=K).reshape(K, 1) / float(len(seen)), 1e-12, 1e-14, what="weights")
        ctx.state(n, N, w)


def many_cells(ctx, m, Ns, NX):
    """The interval rule with many cells: the drawn inputs fall into cells in several known ways."""
    for ph in (0.5, 1.5):
        s = make_subspaces(data.ortho(m, ph), n=1)
        mp = the_map("bounded", s)
        W1 = s.W1
        r = np.sum(np.abs(W1))
        vert = np.sign(W1[:, 0])
        for N in Ns:
            for nm, cell in (("one each", lambda i: i % N), ("squares", lambda i: (i * i + i // 7) % N), ("last", lambda i: N - 1),
                             ("ends", lambda i: (0, N - 1, N // 2)[i % 3]), ("upper half", lambda i: N // 2 + i % (N - N // 2))):
                with ctx.case({"m": m, "W": ph, "N": N, "drawn": nm, "NX": NX}):
                    want = np.zeros((N, 1))
                    rows = []
                    for i in range(NX):
                        k = cell(i)
                        want[k] += 1.0
                        t = (-1 + 2 * (k + (0.03, 0.5, 0.97)[i % 3]) / N)
                        rows.append(t * vert)
                    with scripted(place(rows, m)):
                        Yp, Yw = integrals.interval_quadrature_rule(mp, N, NX=NX)
                    close(Yp, (-r + (2 * r / N) * (np.arange(N) + 0.5)).reshape(N, 1), 1e-12, what="nodes")
                    close(Yw, want / NX, 1e-12, 1e-14, what="weights")
                    ctx.state(m, N, nm, Yw)
                    ctx.count("transitions")


def many_integrals(ctx, kind, m, n, sizes):
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    mp = the_map(kind, s)
    for N, NMC in sizes:
        for iname, g in integrands():
            with ctx.case({"map": kind, "m": m, "n": n, "N": N, "NMC": NMC, "integrand": iname}):
                check_integral(ctx, kind, mp, N, NMC, iname, g, False, (NOR[0], UNI[0]))


def integrands():
    yield "constant", lambda i, x: 3.75
    yield "zero", lambda i, x: 0.0
    yield "sum", lambda i, x: float(np.sum(x))
    yield "quadratic", lambda i, x: float(np.sum(x * x) + x[0, 0])
    yield "table", lambda i, x: float(data.weyl(1, 1, 11.0 + i)[0, 0])
    yield "alternating", lambda i, x: 1.0 if i % 2 else -1.0
    yield "one large", lambda i, x: 1e6 if i == 1 else 1.0
    yield "integers", lambda i, x: i % 3
    yield "tiny", lambda i, x: 1e-9 * (1.0 + float(np.sin(3.0 * np.sum(x))))
    yield "huge", lambda i, x: -1e12 * (1.0 + float(np.sin(3.0 * np.sum(x))))
    yield "large mean", lambda i, x: 1e5 + float(np.sin(3.0 * np.sum(x)))


def check_integral(ctx, kind, mp, N, NMC, iname, g, runner, pats):
    seen, vals = [], []

    def fun(x):
        fail(np.shape(x) != (1, mp.domain.subspaces.W1.shape[0]), "simulation called with shape {}", np.shape(x))
        v = g(len(seen), x)
        seen.append(np.array(x))
        vals.append(v)
        return v
    with scripted(fixed(*pats)):
        Xp, Xw, ind = ask(integrals.quadrature_rule, mp, N, NMC=NMC)
    arg = simrunners.SimulationRunner(fun) if runner else fun
    with scripted(fixed(*pats)):
        res = ask(integrals.integrate, arg, mp, N, NMC=NMC)
    fail(len(res) != 3, "integrate returned {}", res)
    mu, lb, ub = [float(v) for v in res]
    fail(any(np.ndim(v) for v in res), "integrate returned arrays {}", res)
    fail(len(seen) != len(Xp), "{} simulations for {} nodes", len(seen), len(Xp))
    close(np.vstack(seen), Xp, 1e-12, what="simulated points")
    K = len(Xp) // NMC
    F = np.array(vals, float).reshape(K, NMC)
    w = np.asarray(Xw).reshape(K, NMC)[:, 0] * NMC
    mean = np.array([sum(r) / NMC for r in F.tolist()])
    var = np.array([sum((v - a) ** 2 for v in r) / NMC for r, a in zip(F.tolist(), mean)])
    sc = np.max(np.abs(F)) or 1.0
    close(mu / sc, np.sum(w * mean) / sc, 1e-12, what="estimate")
    half = 1.96 * np.sqrt(np.sum(w * w * var) / NMC)
    close(np.array([lb, ub]) / sc, (mu + np.array([-half, half])) / sc, 1e-7, 1e-10, what="interval")
    fail(not lb <= mu <= ub, "interval {} does not contain the estimate", (lb, mu, ub))
    if iname == "constant":
        close(np.array([mu, lb, ub]), np.full(3, 3.75), 1e-12, what="integral of a constant")
    ctx.state(kind, N, NMC, iname, mu, half)
    ctx.count("transitions", len(seen))


def integrals_of(ctx, kind, m, n, Ns, NMCs):
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    mp = the_map(kind, s)
    P = [(a, UNI[0]) for a in NOR[:2]] if kind == "unbounded" else [(NOR[0], b) for b in UNI[:2]]
    for N, NMC, (iname, g), runner in itertools.product(Ns, NMCs, integrands(), (False, True)):
        for pats in P:
            with ctx.case({"map": kind, "m": m, "n": n, "N": N, "NMC": NMC, "integrand": iname, "runner": runner,
                           "answers": [p.__name__ for p in pats]}):
                try:
                    check_integral(ctx, kind, mp, N, NMC, iname, g, runner, pats)
                except NoDesign:
                    ctx.count("no_design")
    with ctx.case({"map": kind, "m": m, "n": n, "NMC": "default"}):
        calls = []
        try:
            with scripted(fixed()):
                K = len(ask(integrals.av_quadrature_rule, mp, Ns[-1])[0])
            with scripted(fixed()):
                integrals.integrate(lambda x: calls.append(1) or 1.0, mp, Ns[-1])
            fail(len(calls) != 10 * K, "{} simulations for {} nodes by default", len(calls), K)
        except NoDesign:
            pass


def av_integrals(ctx, kind, m, n, Ns):
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    mp = the_map(kind, s)
    for N in Ns:
        for iname, g in integrands():
            with ctx.case({"map": kind, "m": m, "n": n, "N": N, "integrand": iname}):
                seen, vals = [], []

                def fun(y):
                    fail(np.shape(y) != (1, n), "function called with shape {}", np.shape(y))
                    v = g(len(seen), y)
                    seen.append(np.array(y))
                    vals.append(v)
                    return v
                try:
                    with scripted(fixed()):
                        Yp, Yw = ask(integrals.av_quadrature_rule, mp, N)
                    with scripted(fixed()):
                        mu = ask(integrals.av_integrate, fun, mp, N)
                except NoDesign:
                    ctx.count("no_design")
                    continue
                fail(np.ndim(mu) != 0, "av_integrate returned {}", mu)
                fail(len(seen) != len(Yp), "{} calls for {} nodes", len(seen), len(Yp))
                close(np.vstack(seen), Yp, 1e-12, what="nodes")
                sc = np.max(np.abs(vals)) or 1.0
                close(mu / sc, np.dot(np.ravel(Yw), np.array(vals, float)) / sc, 1e-12, what="integral")
                if iname == "constant":
                    close(mu, 3.75, 1e-12, what="integral of a constant")
                ctx.state(kind, N, iname, float(mu))
                ctx.count("transitions", len(seen))
        with ctx.case({"map": kind, "m": m, "n": n, "N": N, "integrand": "response surface"}):
            r = response_surfaces.ActiveSubspaceResponseSurface(mp)
            X = 0.9 * data.weyl(30, m, 2.0)
            with scripted(fixed()):
                r.train_with_data(X, (X.dot(s.W1)[:, :1]) ** 2 + 1.0)
            try:
                with scripted(fixed()):
                    Yp, Yw = ask(integrals.av_quadrature_rule, mp, N)
                with scripted(fixed()):
                    mu = ask(integrals.av_integrate, r, mp, N)
            except NoDesign:
                continue
            close(mu, np.dot(Yw[:, 0], r.predict_av(Yp)[0][:, 0]), 1e-12, what="integral of a surface")
            ctx.state(kind, N, float(mu))


def histories(ctx, kind, m, depth):
    ns = range(1, m + 1)
    for start in ns:
        for hist in itertools.product(ns, repeat=depth):
            with ctx.case({"map": kind, "m": m, "start": start, "partitions": hist}):
                s = make_subspaces(data.ortho(m, 0.5), n=start)
                mp = the_map(kind, s)
                for n in hist:
                    s.partition(n)
                    if kind == "bounded":
                        np.random.seed(1)
                        mp.domain.compute_boundary()
                    try:
                        with scripted(fixed()):
                            Yp, Yw = ask(integrals.av_quadrature_rule, mp, 9 if n < 3 else 8)
                    except NoDesign:
                        continue
                    check_av_rule(kind, mp, 9 if n < 3 else 8, Yp, Yw, "after {}".format(hist))
                    with scripted(fixed()):
                        Xp, Xw, ind = integrals.quadrature_rule(mp, 9 if n < 3 else 8, NMC=2)
                    check_rule(kind, mp, 2, Yp, Yw, Xp, Xw, ind, "after {}".format(hist))
                    ctx.count("transitions")
                    ctx.state(kind, start, hist, n, Yw)


def jobs(tier):
    big = tier == "thorough"
    J = []
    powers = {1: (1, 2, 3, 7, 10, 15), 2: (1, 2, 3, 4, 8, 9, 15, 16, 24, 25, 49, 99, 100), 3: (1, 7, 8, 9, 26, 27, 28, 63, 64,
              65, 124, 125, 216, 343), 4: (1, 15, 16, 17, 80, 81, 255, 256), 5: (1, 31, 32, 33, 242, 243)}
    for m in (2, 3, 4, 5) + ((6,) if big else ()):
        for n in range(1, min(m, 5) + 1):
            J.append(Job("rules unbounded m={} n={}".format(m, n), rules, "unbounded", m, n, powers[n], (1, 2, 10)))
    for m, n, Ns in ((2, 1, (1, 2, 3, 7, 20)), (3, 1, (1, 2, 5, 10)), (5, 1, (1, 4)), (2, 2, (1, 2, 4)), (3, 2, (1, 2, 3, 5)),
                     (4, 2, (1, 2, 4)), (4, 3, (1, 2)), (3, 3, (1, 2)), (4, 4, (1,))) + (((5, 2, (1, 3, 6)), (5, 3, (1, 2, 3))) if big else ()):
        J.append(Job("rules bounded m={} n={}".format(m, n), rules, "bounded", m, n, Ns, (1, 2, 10)))
    for m, n, N, NX in ((2, 1, 1, 2), (2, 1, 2, 5), (3, 1, 3, 4), (3, 1, 5, 3), (4, 1, 7, 3), (3, 2, 1, 2), (3, 2, 2, 2),
                        (4, 2, 2, 2), (4, 3, 1, 1)) + (((2, 1, 4, 5), (3, 1, 10, 4), (3, 2, 3, 3), (4, 3, 2, 2)) if big else ()):
        J.append(Job("cells m={} n={} N={}".format(m, n, N), cells, m, n, N, NX))
    for kind, m, n, Ns in (("unbounded", 2, 1, (1, 2, 5)), ("unbounded", 3, 2, (4, 9)), ("unbounded", 4, 3, (8,)),
                           ("bounded", 2, 1, (1, 2, 5)), ("bounded", 3, 1, (3,)), ("bounded", 3, 2, (1, 2)),
                           ("bounded", 4, 2, (2,))):
        J.append(Job("integrals {} m={} n={}".format(kind, m, n), integrals_of, kind, m, n, Ns, (1, 2, 5)))
        J.append(Job("active integrals {} m={} n={}".format(kind, m, n), av_integrals, kind, m, n, Ns))
    for m in (2, 3, 5):
        J.append(Job("many cells m={}".format(m), many_cells, m, (1, 2, 10, 16, 17, 30, 33, 40, 41, 50, 64, 65, 99, 100, 101, 128, 129, 200,
                                                                  256, 257, 500, 501, 1000, 1001), 1201))
    J.append(Job("many cells few draws", many_cells, 3, (1, 2, 40, 41, 100, 257), 7))
    J.append(Job("many cells many draws", many_cells, 3, (2, 41, 101), 20011))
    J.append(Job("large integrals unbounded n=1", many_integrals, "unbounded", 3, 1, [(N, 3) for N in (20, 33, 51, 64, 100, 128)] + [
        (3, 33), (3, 100), (2, 101), (2, 128), (2, 257), (2, 1001), (1, 5000), (101, 1), (129, 2)]))
    J.append(Job("large integrals unbounded n=2", many_integrals, "unbounded", 4, 2, [(N, 2) for N in (36, 121, 130, 256, 400, 529)] + [(9, 120)]))
    J.append(Job("large integrals unbounded n=3", many_integrals, "unbounded", 12, 3, [(N, 2) for N in (27, 125, 729)]))
    J.append(Job("large integrals bounded n=1", many_integrals, "bounded", 3, 1, [(20, 2), (41, 1), (3, 33), (2, 101), (100, 1)]))
    for kind, m, n, Ns in (("unbounded", 3, 1, (20, 33, 64, 100, 128)), ("unbounded", 4, 2, (36, 121, 400, 1000)),
                           ("unbounded", 6, 3, (125, 1000)), ("unbounded", 2, 2, (9, 100)), ("bounded", 3, 1, (20, 41, 64, 100, 257, 1000)),
                           ("bounded", 2, 2, (1, 3)), ("bounded", 10, 1, (10, 100))):
        J.append(Job("large active integrals {} m={} n={}".format(kind, m, n), av_integrals, kind, m, n, Ns))
    for m, n, Ns in ((3, 1, (20, 25, 26, 30, 33, 40, 50, 64, 99, 100, 101, 128)), (4, 2, (400, 676, 900, 1024)), (5, 3, (729, 1331)),
                     (9, 4, (625,)), (12, 7, (128,)), (12, 10, (1024,))):
        J.append(Job("large rules unbounded m={} n={}".format(m, n), rules, "unbounded", m, n, Ns, (1, 3)))
    for kind in ("unbounded", "bounded"):
        J.append(Job("histories {}".format(kind), histories, kind, 3, 3 if big else 2))
        J.append(Job("histories {} m=4".format(kind), histories, kind, 4, 2 if big else 1))
    J += history.jobs("C12", tier)
    return J
