"""C18: linear and quadratic programs return feasible optimal points."""
import glob
import importlib
import itertools
import os
import sys

import numpy as np

import data
import history
from core import Job, close, fail, raises, same
from fakegurobi import program
from sut import qp_solver

LEVEL = "model_checking"
RULE = ("every program over small integer alphabets of objectives, constraints, right hand sides and bounds with up to three "
        "variables, classified as infeasible, unbounded or optimal by enumeration of active sets; the programs the domains "
        "solve; convex quadratics (definite, semidefinite, not symmetric) over the same sets; both backends, Gurobi as a "
        "stand-in model that enumerates active sets; all histories of two programs on one solver")
ASSUMPTIONS = ["Gurobi is not installed; its modelling interface is represented by a stand-in that solves models exactly",
               "objective values are attained to 1e-5 relative to the size of the data (SLSQP stops at 1e-6)"]


def solver(backend):
    """The module with the backend present or not, newly imported."""
    if backend == "GUROBI":
        import fakegurobi
        sys.modules["gurobipy"] = fakegurobi
    else:
        sys.modules.pop("gurobipy", None)
    return importlib.reload(qp_solver)


def clean():
    for f in glob.glob("bad_*.npz"):
        try:
            os.remove(f)
        except OSError:                    # another job was faster
            pass


def judge(ctx, f, c, Q, A, b, E, e, what, tol=1e-5):
    """f() solves min c'x + x'Qx, Ax >= b, Ex = e."""
    n = len(c)
    kind, xs, fs = program(c, Q, A, b, E, e)
    ctx.count("transitions")
    ctx.state(what, kind, np.asarray(c, float), np.asarray(Q, float), np.asarray(b, float))
    if kind == "unbounded":
        ctx.count("unbounded")
        return
    if kind == "infeasible":
        raises(f, what + ": infeasible program")
        return
    x = f()
    fail(not isinstance(x, np.ndarray) or x.shape != (n, 1), "{}: returned {}", what, x)
    x = x[:, 0].astype(float)
    fail(not np.all(np.isfinite(x)), "{}: returned {}", what, x)
    sc = 1 + max([np.max(np.abs(v)) for v in (A, b, E, e) if v is not None and np.size(v)] + [0])
    if A is not None and len(A):
        fail(np.min(A.dot(x) - b) < -1e-6 * sc, "{}: {} violates a constraint by {}", what, x, np.min(A.dot(x) - b))
    if E is not None and len(E):
        fail(np.max(np.abs(E.dot(x) - e)) > 1e-6 * sc, "{}: {} violates an equation", what, x)
    v = c.dot(x) + x.dot(Q).dot(x)
    os_ = 1 + abs(fs) + np.max(np.abs(c)) + np.max(np.abs(Q))
    fail(v > fs + tol * os_, "{}: value {} at {}, optimum {} at {}", what, float(v), x, float(fs), xs)


def boxed(n, lb, ub):
    A = np.vstack((np.eye(n), -np.eye(n)))
    b = np.concatenate((lb, -ub))
    keep = np.isfinite(b)
    return A[keep], b[keep]


COL = lambda v: np.array(v, float).reshape(-1, 1)


def lp_eq(ctx, backend, n, M, cs, As, bs, bounds):
    S = solver(backend)
    q = S.QPSolver(backend)
    for A in itertools.product(As, repeat=n * M):
        A = np.array(A, float).reshape(M, n)
        if np.linalg.matrix_rank(A) < M:
            continue
        for c in itertools.product(cs, repeat=n):
            c = np.array(c, float)
            for b in itertools.product(bs, repeat=M):
                b = np.array(b, float)
                for lb, ub in bounds:
                    lb, ub = np.resize(lb, n).astype(float), np.resize(ub, n).astype(float)
                    with ctx.case({"backend": backend, "c": c, "A": A, "b": b, "lb": lb, "ub": ub}):
                        BA, Bb = boxed(n, lb, ub)
                        judge(ctx, lambda: q.linear_program_eq(COL(c), A, COL(b), COL(lb), COL(ub)), c, np.zeros((n, n)),
                              BA, Bb, A, b, "linear_program_eq")
    clean()


def lp_ineq(ctx, backend, n, M, cs, As, bs):
    S = solver(backend)
    q = S.QPSolver(backend)
    rows = list(itertools.product(As, repeat=n))
    for A in itertools.combinations(rows, M):
        A = np.array(A, float)
        if np.linalg.matrix_rank(A) < n:
            continue
        for c in itertools.product(cs, repeat=n):
            c = np.array(c, float)
            for b in itertools.product(bs, repeat=M):
                b = np.array(b, float)
                with ctx.case({"backend": backend, "c": c, "A": A, "b": b}):
                    judge(ctx, lambda: q.linear_program_ineq(COL(c), A, COL(b)), c, np.zeros((n, n)), A, b, None, None,
                          "linear_program_ineq")
    clean()


def quadratics(n):
    I = np.eye(n)
    w = data.weyl(n, n, 2.0)
    yield "identity", I
    yield "scaled", np.diag(10.0 ** (np.arange(n) - 1.0))
    yield "generic", w.dot(w.T) + 0.3 * I
    yield "zero", 0 * I
    yield "rank one", np.ones((n, n))
    if n > 1:
        K = np.zeros((n, n))
        K[0, -1], K[-1, 0] = 1.0, -1.0
        yield "not symmetric", I + 0.7 * K
        T = np.triu(np.ones((n, n))) + I
        yield "triangular", T
        yield "semidefinite not symmetric", np.ones((n, n)) + K
    yield "hundred", 100.0 * I


def qp_bnd(ctx, backend, n, cs, bounds):
    S = solver(backend)
    q = S.QPSolver(backend)
    for nm, Q in quadratics(n):
        for c in itertools.product(cs, repeat=n):
            c = np.array(c, float)
            for lb, ub in bounds:
                lb, ub = np.resize(lb, n).astype(float), np.resize(ub, n).astype(float)
                if not np.all(np.isfinite(np.r_[lb, ub])) and nm in ("zero", "rank one", "semidefinite not symmetric"):
                    continue
                with ctx.case({"backend": backend, "c": c, "Q": nm, "lb": lb, "ub": ub}):
                    A, b = boxed(n, lb, ub)
                    judge(ctx, lambda: q.quadratic_program_bnd(COL(c), Q, COL(lb), COL(ub)), c, Q, A, b, None, None,
                          "quadratic_program_bnd")
    clean()


def polyhedra(n):
    I = np.eye(n)
    yield "box", np.vstack((I, -I)), -np.ones(2 * n)
    yield "box aside", np.vstack((I, -I)), np.r_[np.full(n, 0.5), np.full(n, -2.0)]
    yield "orthant", I, np.zeros(n)
    yield "simplex", np.vstack((I, -np.ones((1, n)))), np.r_[np.zeros(n), -1.0]
    yield "half-space", np.ones((1, n)), np.ones(1)
    yield "slab", np.vstack((np.ones((1, n)), -np.ones((1, n)))), np.array([0.25, -0.5])
    yield "empty", np.vstack((np.ones((1, n)), -np.ones((1, n)))), np.array([1.0, 0.0])
    yield "empty box", np.vstack((I, -I)), np.r_[np.ones(n), np.zeros(n)]
    yield "point", np.vstack((I, -I)), np.r_[np.full(n, 0.5), np.full(n, -0.5)]
    yield "repeated rows", np.vstack((I, I, -I, 2 * I)), np.r_[-np.ones(n), -np.ones(n), -np.ones(n), np.full(n, -2.0)]
    w = data.weyl(2 * n + 1, n, 4.0)
    yield "generic", np.vstack((w, -w)), np.full(4 * n + 2, -0.6)
    if n > 1:
        W = data.ortho(n + 2, 0.5)[:, :n]
        yield "cut of a cube", np.vstack((W, -W)), np.r_[-np.ones(n + 2) - 0.3, -np.ones(n + 2) + 0.3]


def qp_ineq(ctx, backend, n, cs, only=None):
    S = solver(backend)
    q = S.QPSolver(backend)
    for (nm, Q), (pn, A, b) in itertools.product(quadratics(n), polyhedra(n)):
        definite = np.min(np.linalg.eigvalsh(Q + Q.T)) > 1e-9
        if not definite and pn in ("orthant", "half-space", "slab", "empty"):
            continue
        for c in itertools.product(cs, repeat=n):
            c = np.array(c, float)
            with ctx.case({"backend": backend, "c": c, "Q": nm, "polyhedron": pn}):
                judge(ctx, lambda: q.quadratic_program_ineq(COL(c), Q, A, COL(b)), c, Q, A, b, None, None,
                      "quadratic_program_ineq")
    clean()


def domain_programs(ctx, backend, m, n):
    """Boxes, centers and starting points of the samplers."""
    S = solver(backend)
    q = S.QPSolver(backend)
    for ph in (0.5, 1.5, 2.5):
        W = data.ortho(m, ph)
        W1, W2 = W[:, :n], W[:, n:]
        k = m - n
        for x in (np.zeros(m), 0.5 * data.weyl(1, m, 3.0)[0], 0.95 * data.weyl(1, m, 4.0)[0], np.ones(m), 1.2 * np.ones(m),
                  np.r_[1.0, 0.3 * np.ones(m - 1)]):
            y = x.dot(W1)
            s = W1.dot(y)
            A, b = np.vstack((W2, -W2)), np.r_[-1 - s, -1 + s]
            for i in range(k):
                for sg in (1.0, -1.0):
                    with ctx.case({"backend": backend, "m": m, "n": n, "rotation": ph, "x": x, "box": (i, sg)}):
                        c = sg * np.eye(k)[i]
                        judge(ctx, lambda: q.linear_program_ineq(COL(c), A, COL(b)), c, np.zeros((k, k)), A, b, None, None,
                              "linear_program_ineq")
            nr = np.sqrt(np.sum(W2 ** 2, axis=1))
            CA = -np.hstack((np.vstack((W2, -W2)), np.r_[nr, nr][:, None]))
            Cb = -np.r_[1 - s, 1 + s]
            c = np.r_[np.zeros(k), -1.0]
            with ctx.case({"backend": backend, "m": m, "n": n, "rotation": ph, "x": x, "program": "center"}):
                judge(ctx, lambda: q.linear_program_ineq(COL(c), CA, COL(Cb)), c, np.zeros((k + 1, k + 1)), CA, Cb, None,
                      None, "linear_program_ineq")
            if m <= 4:
                with ctx.case({"backend": backend, "m": m, "n": n, "rotation": ph, "x": x, "program": "start"}):
                    lb, ub = -np.ones(m), np.ones(m)
                    BA, Bb = boxed(m, lb, ub)
                    for c in (np.zeros(m), np.ones(m), np.arange(m) - 1.0):
                        judge(ctx, lambda: q.linear_program_eq(COL(c), W1.T, COL(y), COL(lb), COL(ub)), c,
                              np.zeros((m, m)), BA, Bb, W1.T, y, "linear_program_eq")
    clean()


def known(ctx, backend, ns):
    """Separable programs, rotated or not, in many variables and at many scales: their solutions in closed form."""
    S = solver(backend)
    q = S.QPSolver(backend)
    for n in ns:
        I = np.eye(n)
        w = data.weyl(n, 6, 2.0)
        for sc in (1.0, 1e-2, 1e2):
            lb, ub = sc * (-1.0 - 0.5 * w[:, 0]), sc * (1.0 + 0.5 * w[:, 1])
            for cs in (1.0, 1e-2, 1e2):
                c = cs * w[:, 2]

                def attains(f, c, Q, A, b, E, e, x0, what):
                    ctx.count("transitions")
                    x = f()
                    fail(not isinstance(x, np.ndarray) or x.shape != (n, 1), "{}: returned {}", what, x)
                    x = x[:, 0].astype(float)
                    fail(not np.all(np.isfinite(x)), "{}: returned {}", what, x)
                    fail(np.min(A.dot(x) - b) < -1e-6 * (1 + sc), "{}: constraint violated by {}", what, np.min(A.dot(x) - b))
                    if E is not None:
                        fail(np.max(np.abs(E.dot(x) - e)) > 1e-6 * (1 + n * sc), "{}: equation violated", what)
                    v, v0 = c.dot(x) + x.dot(Q).dot(x), c.dot(x0) + x0.dot(Q).dot(x0)
                    fail(v > v0 + 1e-5 * (1 + abs(v0) + np.max(np.abs(c)) + np.max(np.abs(Q))),
                         "{}: value {}, optimum {}", what, float(v), float(v0))
                    ctx.state(what, n, sc, cs, v)
                case = {"backend": backend, "n": n, "scale of the box": sc, "scale of the objective": cs}
                box = boxed(n, lb, ub)
                x0 = np.where(c > 0, lb, ub)
                for nm, R in (("box", I), ("rotated box", data.ortho(n, 0.5) if n > 1 else -I)):
                    A, b = box[0].dot(R), box[1]
                    with ctx.case(dict(case, program="linear", polyhedron=nm)):
                        cr = R.T.dot(c)
                        attains(lambda: q.linear_program_ineq(COL(cr), A, COL(b)), cr, 0 * I, A, b, None, None,
                                R.T.dot(x0), "linear_program_ineq")
                    with ctx.case(dict(case, program="quadratic", polyhedron=nm)):
                        d = 1.0 + np.arange(n) % 5
                        xq = np.clip(-c / (2 * d), lb, ub)
                        Q = R.T.dot(np.diag(d)).dot(R)
                        attains(lambda: q.quadratic_program_ineq(COL(cr), Q, A, COL(b)), cr, Q, A, b, None, None,
                                R.T.dot(xq), "quadratic_program_ineq")
                        if nm == "box":
                            attains(lambda: q.quadratic_program_bnd(COL(c), Q, COL(lb), COL(ub)), c, Q, A, b, None, None,
                                    xq, "quadratic_program_bnd")
                # fractional knapsack: sum of a x fixed, the best ratios filled first
                a = 1.0 + np.abs(w[:, 3])
                for part in (0.2, 0.5, 0.9):
                    with ctx.case(dict(case, program="equation", part=part)):
                        tot = a.dot(lb) + part * a.dot(ub - lb)
                        x1, left = lb.copy(), tot - a.dot(lb)
                        for i in np.argsort(c / a):
                            t = min(left / a[i], ub[i] - lb[i])
                            x1[i] += t
                            left -= t * a[i]
                        attains(lambda: q.linear_program_eq(COL(c), a.reshape(1, n), COL([tot]), COL(lb), COL(ub)), c, 0 * I,
                                box[0], box[1], a.reshape(1, n), np.array([tot]), x1, "linear_program_eq")
                with ctx.case(dict(case, program="infeasible")):
                    raises(lambda: q.linear_program_eq(COL(c), a.reshape(1, n), COL([a.dot(ub) + sc]), COL(lb), COL(ub)),
                           "linear_program_eq: infeasible")
                    raises(lambda: q.linear_program_ineq(COL(c), np.vstack((I, -I)), COL(np.r_[ub, -ub + sc])),
                           "linear_program_ineq: infeasible")
                    if sc >= 1:
                        raises(lambda: q.quadratic_program_ineq(COL(c), I, np.vstack((I, -I)), COL(np.r_[ub, -ub + sc])),
                               "quadratic_program_ineq: infeasible")
                    ctx.count("transitions", 3)
                # a lower bound above the upper one
                for i in (range(n) if n < 9 else (0, n // 2, n - 1)):
                    for by in (1e-3, 1.0, None):
                        with ctx.case(dict(case, program="crossed bounds", variable=i, by=by)):
                            l1, u1 = lb.copy(), ub.copy()
                            if by is None:
                                l1[i], u1[i] = ub[i], lb[i]
                            else:
                                l1[i] = ub[i] + by * max(sc, 1)
                            raises(lambda: q.linear_program_eq(COL(c), a.reshape(1, n), COL([0.5 * a.dot(lb + ub)]), COL(l1), COL(u1)),
                                   "linear_program_eq: bounds cross")
                            ctx.count("transitions")
    clean()


def scaled(ctx, backend, n):
    """Programs whose variables, constraints and objectives differ in magnitude, and whose solutions are far from zero."""
    S = solver(backend)
    q = S.QPSolver(backend)
    I = np.eye(n)
    w = data.weyl(n, 4, 2.0)
    for D in itertools.product((1.0, 1e4, 1e8)[:3 if n < 3 else 2] if n > 1 else (1e-3, 1.0, 1e2, 1e4, 1e6, 1e7, 1e9), repeat=n):
        D = np.array(D)
        for shift in (0.0, 5e3, -2e3, 3e7):
            lb, ub = shift + D * (-1.0 - 0.5 * w[:, 0]), shift + D * (1.0 + 0.5 * w[:, 1])
            for signs in itertools.product((1.0, -1.0), repeat=n):
                c = np.array(signs) * (1 + 0.25 * np.arange(n))
                A, b = boxed(n, lb, ub)
                case = {"backend": backend, "scales": D, "shift": shift, "c": c}
                with ctx.case(dict(case, program="ineq")):
                    judge(ctx, lambda: q.linear_program_ineq(COL(c), A, COL(b)), c, 0 * I, A, b, None, None,
                          "linear_program_ineq")
                    r = 10.0 ** (np.arange(len(b)) % 3)
                    judge(ctx, lambda: q.linear_program_ineq(COL(c), r[:, None] * A, COL(r * b)), c, 0 * I, r[:, None] * A,
                          r * b, None, None, "linear_program_ineq")
                a = (1.0 + np.abs(w[:, 3])).reshape(1, n)
                for part in (0.2, 0.7):
                    with ctx.case(dict(case, program="eq", part=part)):
                        e = a.dot(lb + part * (ub - lb))
                        judge(ctx, lambda: q.linear_program_eq(COL(c), a, COL(e), COL(lb), COL(ub)), c, 0 * I, A, b, a, e,
                              "linear_program_eq")
                        half = np.where(np.arange(n) % 2, np.inf, ub)
                        HA, Hb = boxed(n, lb, half)
                        judge(ctx, lambda: q.linear_program_eq(COL(c), a, COL(e), COL(lb), COL(half)), c, 0 * I, HA, Hb, a, e,
                              "linear_program_eq")
    clean()


def backends(ctx):
    for present in (False, True):
        S = solver("GUROBI" if present else "SCIPY")
        for asked in (None, "GUROBI", "SCIPY", "OTHER", ""):
            with ctx.case({"installed": present, "asked for": asked}):
                q = S.QPSolver() if asked is None else S.QPSolver(asked)
                want = "GUROBI" if present and asked in (None, "GUROBI") else "SCIPY"
                fail(q.solver != want, "backend {} instead of {}", q.solver, want)
                one = np.ones((1, 1))
                progs = [lambda: q.linear_program_eq(one, one, 0.5 * one, -one, one),
                         lambda: q.linear_program_ineq(one, one, 0.5 * one),
                         lambda: q.quadratic_program_bnd(-one, one, -one, one),
                         lambda: q.quadratic_program_ineq(-one, one, one, -one)]
                for f in progs:
                    import fakegurobi
                    n0 = fakegurobi.MODELS[0]
                    close(f(), 0.5 * one, 1e-5, what="solution")
                    used = fakegurobi.MODELS[0] > n0
                    fail(used != (want == "GUROBI"), "Gurobi {}used", "" if used else "not ")
                    ctx.count("transitions")
                ctx.state(present, asked, q.solver)


def histories(ctx, backend):
    """Programs one after another on one solver, infeasible ones included, give what they give alone."""
    S = solver(backend)
    n = 2
    w = data.weyl(2, 2, 1.0)
    I = np.eye(2)
    progs = [("eq", lambda q: q.linear_program_eq(COL([1, 2]), np.ones((1, 2)), COL([0.5]), COL([-1, -1]), COL([1, 1]))),
             ("ineq", lambda q: q.linear_program_ineq(COL([1, 2]), np.vstack((I, -I)), COL([-1, -1, -1, -1]))),
             ("bnd", lambda q: q.quadratic_program_bnd(COL([1, 2]), I, COL([-1, -1]), COL([1, 1]))),
             ("qp", lambda q: q.quadratic_program_ineq(COL([1, 2]), I, np.vstack((I, -I)), COL([-1, -1, -1, -1]))),
             ("infeasible", lambda q: q.linear_program_ineq(COL([1]), COL([1, -1]), COL([1, 0]))),
             ("infeasible eq", lambda q: q.linear_program_eq(COL([1]), COL([1]), COL([5]), COL([-1]), COL([1]))),
             ("three", lambda q: q.quadratic_program_bnd(COL([1, 2, -9]), np.eye(3), COL([-1] * 3), COL([1] * 3)))]

    def outcome(f, q):
        try:
            return f(q)
        except Exception as e:
            return type(e).__name__
    alone = [outcome(f, S.QPSolver(backend)) for _, f in progs]
    for hist in itertools.product(range(len(progs)), repeat=3):
        with ctx.case({"backend": backend, "programs": [progs[i][0] for i in hist]}):
            q = S.QPSolver(backend)
            for i in hist:
                r = outcome(progs[i][1], q)
                if isinstance(alone[i], str):
                    fail(not isinstance(r, str), "{} solved after {}", progs[i][0], hist)
                else:
                    fail(isinstance(r, str), "{} failed after {}: {}", progs[i][0], hist, r)
                    close(r, alone[i], 1e-12, what="solution after {}".format(hist))
                ctx.count("transitions")
            ctx.state(hist)
    clean()


def jobs(tier):
    big = tier == "thorough"
    B = [(-1, 1), (0, 2), ([-1, 0.5], [0, 3]), ((-2, -1, 0), (-1, 1, 0))]
    inf = np.inf
    J = [Job("backends", backends)]
    for be in ("SCIPY", "GUROBI"):
        small = not big and be == "GUROBI"
        J.append(Job("{} lp eq 1".format(be), lp_eq, be, 1, 1, (-1, 0, 2), (-1, 1, 2), (-2, -1, 0, 0.5, 1), B))
        J.append(Job("{} lp eq 2 1".format(be), lp_eq, be, 2, 1, (-1, 0, 2), (-1, 0, 1, 2), (-1, 0, 1.5, 4), B[:3]))
        J.append(Job("{} lp eq 2 2".format(be), lp_eq, be, 2, 2, (-1, 1), (-1, 0, 1), (-1, 0, 0.5), B[:2]))
        J.append(Job("{} lp eq 3 1".format(be), lp_eq, be, 3, 1, (-1, 0, 1), (-1, 0, 1) if not small else (1, -1), (0, 1, 5), B[:1] + B[3:]))
        if big:
            J.append(Job("{} lp eq 3 2".format(be), lp_eq, be, 3, 2, (-1, 1), (-1, 0, 1), (0, 1), B[:1] + B[3:]))
        J.append(Job("{} lp ineq 1 2".format(be), lp_ineq, be, 1, 2, (-1, 0, 1), (-2, -1, 1), (-2, -1, 0, 1)))
        J.append(Job("{} lp ineq 2 2".format(be), lp_ineq, be, 2, 2, (-1, 0, 1), (-1, 0, 1), (-1, 0, 1)))
        J.append(Job("{} lp ineq 2 3".format(be), lp_ineq, be, 2, 3, (-1, 0, 1), (-1, 0, 1), (-1, 1) if not small else (-1,)))
        J.append(Job("{} lp ineq 2 4".format(be), lp_ineq, be, 2, 4, (-1, 2), (-1, 0, 1), (-1,)))
        if big:
            J.append(Job("{} lp ineq 3 4".format(be), lp_ineq, be, 3, 4, (1,), (-1, 0, 1), (-1,)))
        for n in (1, 2, 3):
            cs = {1: (-300, -2, -1, 0, 0.5, 1, 30), 2: (-3, -1, 0, 0.5, 20), 3: (-2, 0, 1)}[n]
            bb = B + [(-inf, 1), (0, inf), (-inf, inf), ((-inf, 1), (0, inf)), (3, 5), (-1e-3, 1e-3), (-100, 50)]
            J.append(Job("{} qp bnd {}".format(be, n), qp_bnd, be, n, cs, bb))
            J.append(Job("{} qp ineq {}".format(be, n), qp_ineq, be, n, cs))
        for m, n in ((2, 1), (3, 1), (3, 2), (4, 2), (4, 3)) + (((4, 1), (5, 3), (5, 2)) if big else ()):
            J.append(Job("{} domain programs m={} n={}".format(be, m, n), domain_programs, be, m, n))
        if be == "SCIPY":
            for ns in ((1, 2, 3, 4), (5, 6, 8), (10, 11), (16,), (20,), (33,)):
                J.append(Job("{} known n={}".format(be, ns), known, be, ns))
        else:
            J.append(Job("{} known".format(be), known, be, (1, 2, 3)))
        for n in (1, 2, 3):
            J.append(Job("{} scaled n={}".format(be, n), scaled, be, n))
        J.append(Job("{} histories".format(be), histories, be))
    J += history.jobs("C18", tier)
    return J
