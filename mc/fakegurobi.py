"""A stand-in for gurobipy: the part of its modelling interface that linear and convex quadratic programs need, solved by
enumeration of active sets.  Variables have lower bound 0 by default, models minimize by default, as in Gurobi."""
import itertools

import numpy as np

MODELS = [0]


class GRB(object):
    CONTINUOUS = "C"
    EQUAL, LESS_EQUAL, GREATER_EQUAL = "=", "<", ">"
    INFINITY = 1e100
    OPTIMAL, INFEASIBLE, INF_OR_UNBD, UNBOUNDED = 2, 3, 4, 5
    MINIMIZE, MAXIMIZE = 1, -1

    class Attr(object):
        X = "x"

    class Param(object):
        OutputFlag = "OutputFlag"


class GurobiError(Exception):
    pass


class _Expr(object):
    __array_ufunc__ = None

    def __init__(self, const=0.0, lin=None, quad=None):
        if isinstance(const, _Expr):
            const, lin, quad = const.const, const.lin, const.quad
        self.const, self.lin, self.quad = float(const), dict(lin or {}), dict(quad or {})

    def _add(self, o, s=1.0):
        r = _Expr(self.const, self.lin, self.quad)
        o = o.expr() if isinstance(o, Var) else (o if isinstance(o, _Expr) else _Expr(float(o)))
        r.const += s * o.const
        for k, v in o.lin.items():
            r.lin[k] = r.lin.get(k, 0.0) + s * v
        for k, v in o.quad.items():
            r.quad[k] = r.quad.get(k, 0.0) + s * v
        return r

    def __add__(self, o):
        return self._add(o)
    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1.0)

    def __rsub__(self, o):
        return (self * -1.0)._add(o)

    def __neg__(self):
        return self * -1.0

    def __mul__(self, o):
        if isinstance(o, (Var, _Expr)):
            o = o.expr() if isinstance(o, Var) else o
            if self.quad or o.quad:
                raise GurobiError("degree")
            r = _Expr(self.const * o.const)
            for a, u in self.lin.items():
                r.lin[a] = r.lin.get(a, 0.0) + u * o.const
                for b, v in o.lin.items():
                    k = (min(a, b), max(a, b))
                    r.quad[k] = r.quad.get(k, 0.0) + u * v
            for b, v in o.lin.items():
                r.lin[b] = r.lin.get(b, 0.0) + v * self.const
            return r
        s = float(o)
        return _Expr(self.const * s, {k: v * s for k, v in self.lin.items()}, {k: v * s for k, v in self.quad.items()})
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1.0 / float(o))

    def add(self, o, mult=1.0):
        r = self._add(o, mult)
        self.const, self.lin, self.quad = r.const, r.lin, r.quad

    def addTerms(self, coeffs, variables, others=None):
        if np.ndim(coeffs) == 0:
            coeffs, variables, others = [coeffs], [variables], None if others is None else [others]
        for i, (c, v) in enumerate(zip(coeffs, variables)):
            self.add(v * others[i] if others is not None else v, c)

    def addConstant(self, c):
        self.const += float(c)

    def __ge__(self, o):
        return Temp(self, ">", o)

    def __le__(self, o):
        return Temp(self, "<", o)

    def __eq__(self, o):
        return Temp(self, "=", o)
    __hash__ = None


class LinExpr(_Expr):
    def __init__(self, const=0.0, variables=None):
        if variables is not None:
            _Expr.__init__(self)
            self.addTerms(const, variables)
        elif isinstance(const, Var):
            _Expr.__init__(self, const.expr())
        else:
            _Expr.__init__(self, const)


class QuadExpr(LinExpr):
    pass


class Temp(object):
    def __init__(self, lhs, sense, rhs):
        self.lhs, self.sense, self.rhs = lhs, sense, rhs


class Var(object):
    __array_ufunc__ = None

    def __init__(self, index, lb, ub):
        self.index, self.lb, self.ub, self.x = index, float(lb), float(ub), None

    @property
    def X(self):
        return self.x

    def expr(self):
        return _Expr(0.0, {self.index: 1.0})

    def __add__(self, o):
        return self.expr() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.expr() - o

    def __rsub__(self, o):
        return o - self.expr() if isinstance(o, _Expr) else _Expr(float(o)) - self.expr()

    def __neg__(self):
        return self.expr() * -1.0

    def __mul__(self, o):
        return self.expr() * o
    __rmul__ = __mul__

    def __ge__(self, o):
        return self.expr() >= o

    def __le__(self, o):
        return self.expr() <= o


def quicksum(terms):
    r = LinExpr()
    for t in terms:
        r = r + t
    return r


class Model(object):
    def __init__(self, name=""):
        MODELS[0] += 1
        self.vars, self.constrs, self.objective, self.sense, self.status = [], [], _Expr(), 1, 1
        self.pending = []

    def setParam(self, *a, **k):
        pass

    def addVar(self, lb=0.0, ub=GRB.INFINITY, obj=0.0, vtype=GRB.CONTINUOUS, name=""):
        v = Var(len(self.vars), lb, ub)
        self.vars.append(v)
        if obj:
            self.objective = self.objective + float(obj) * v
        return v

    def addVars(self, n, lb=0.0, ub=GRB.INFINITY, vtype=GRB.CONTINUOUS, **k):
        at = lambda b, i: b[i] if np.ndim(b) else b
        return {i: self.addVar(lb=at(lb, i), ub=at(ub, i)) for i in range(n)}

    def addConstr(self, lhs, sense=None, rhs=None, name=""):
        if isinstance(lhs, Temp):
            lhs, sense, rhs = lhs.lhs, lhs.sense, lhs.rhs
        self.constrs.append((_Expr() + lhs - rhs, sense[0]))

    def addLConstr(self, *a, **k):
        self.addConstr(*a, **k)

    def addConstrs(self, gen, name=""):
        for t in gen:
            self.addConstr(t)

    def setObjective(self, expr, sense=None):
        self.objective = _Expr() + expr
        if sense is not None:
            self.sense = sense

    def update(self):
        pass

    def optimize(self):
        n = len(self.vars)
        c, Q = np.zeros(n), np.zeros((n, n))
        for k, v in self.objective.lin.items():
            c[k] = self.sense * v
        for (a, b), v in self.objective.quad.items():
            Q[a, b] += self.sense * v
        E, e, A, b = [], [], [], []
        for x, s in self.constrs:
            if x.quad:
                raise GurobiError("quadratic constraint")
            row = np.zeros(n)
            for k, v in x.lin.items():
                row[k] = v
            if s == "=":
                E.append(row)
                e.append(-x.const)
            else:
                sg = 1.0 if s == ">" else -1.0
                A.append(sg * row)
                b.append(-sg * x.const)
        for v in self.vars:
            for s, bd in ((1.0, v.lb), (-1.0, -v.ub)):
                if abs(bd) < 1e20:
                    row = np.zeros(n)
                    row[v.index] = s
                    A.append(row)
                    b.append(bd)
        kind, x, f = program(c, Q, np.array(A).reshape(-1, n), np.array(b), np.array(E).reshape(-1, n), np.array(e))
        self.status = {"optimal": 2, "infeasible": 3, "unbounded": 5}[kind]
        if kind == "optimal":
            for v, u in zip(self.vars, x):
                v.x = float(u)
            self.objVal = self.ObjVal = f

    @property
    def Status(self):
        return self.status

    def getVars(self):
        return list(self.vars)

    def getAttr(self, name, variables=None):
        if name.lower() == "status":
            return self.status
        if self.status != 2:
            raise GurobiError("no solution")
        variables = self.vars if variables is None else variables
        if isinstance(variables, dict):
            return {k: v.x for k, v in variables.items()}
        return [v.x for v in variables]


def program(c, Q, A, b, E=None, e=None, tol=1e-9):
    """min c'x + x'Qx with Ax >= b and Ex = e, convex: ('optimal', x, value), ('infeasible',) or ('unbounded',).

    Enumerates active sets.  Without lines in the feasible set an optimum of the program lies at a point where the
    optimality conditions of some active set have a unique solution; lines are removed by orthogonal constraints
    after checking that the objective is constant along them.
    """
    c = np.asarray(c, float).ravel()
    n = c.size
    Q = np.asarray(Q, float)
    H = Q + Q.T
    A, b = np.asarray(A, float).reshape(-1, n), np.asarray(b, float).ravel()
    E = np.zeros((0, n)) if E is None else np.asarray(E, float).reshape(-1, n)
    e = np.zeros(0) if e is None else np.asarray(e, float).ravel()
    sc = 1 + max([0.0] + [np.max(np.abs(v)) for v in (A, b, E, e) if v.size])
    ok = lambda x: (not len(A) or np.min(A.dot(x) - b) > -tol * sc) and (not len(E) or np.max(np.abs(E.dot(x) - e)) < tol * sc)
    S = np.vstack((A, E))
    rank = np.linalg.matrix_rank(S) if len(S) else 0
    L = np.zeros((0, n))
    if rank < n:
        L = np.linalg.svd(S)[2][rank:] if len(S) else np.eye(n)
    E0, e0 = np.vstack((E, L)), np.concatenate((e, np.zeros(len(L))))
    # vertices of the feasible set (modulo lines)
    pts = []
    need = n - np.linalg.matrix_rank(E0) if len(E0) else n
    for T in itertools.combinations(range(len(A)), need):
        K = np.vstack((E0, A[list(T)]))
        if np.linalg.matrix_rank(K) < n:
            continue
        x = np.linalg.lstsq(K, np.concatenate((e0, b[list(T)])), rcond=None)[0]
        if ok(x):
            pts.append(x)
    if not pts:
        return ("infeasible", None, None)
    # directions in which the feasible set is unbounded
    rays = [s * l for l in L for s in (1, -1)]
    for T in itertools.combinations(range(len(A)), max(need - 1, 0)):
        K = np.vstack((E0, A[list(T)]))
        if (np.linalg.matrix_rank(K) if len(K) else 0) != n - 1:
            continue
        d = np.linalg.svd(K)[2][-1] if len(K) else np.eye(n)[0]
        for s in (1, -1):
            if not len(A) or np.min(A.dot(s * d)) > -tol * sc:
                rays.append(s * d)
    flat = [d for d in rays if np.linalg.norm(H.dot(d)) < 1e-9 * (1 + np.max(np.abs(H)))]
    if any(c.dot(d) < -1e-9 * (1 + np.max(np.abs(c))) for d in flat):
        return ("unbounded", None, None)
    # lines with curvature belong to the program, lines without do not matter
    E1, e1 = E, e
    if len(L):
        M = L.dot(H).dot(L.T)
        w, V = np.linalg.eigh(0.5 * (M + M.T))
        flatl = V[:, w < 1e-9 * (1 + np.max(np.abs(H)))].T.dot(L)
        E1, e1 = np.vstack((E, flatl)), np.concatenate((e, np.zeros(len(flatl))))
    best, arg = np.inf, None
    for k in range(0, n + 1):
        for T in itertools.combinations(range(len(A)), k):
            K = np.vstack((E1, A[list(T)]))
            r = len(K)
            KK = np.vstack((np.hstack((H, -K.T)), np.hstack((K, np.zeros((r, r))))))
            rhs = np.concatenate((-c, e1, b[list(T)]))
            sol = np.linalg.lstsq(KK, rhs, rcond=None)[0]
            if np.max(np.abs(KK.dot(sol) - rhs)) > 1e-8 * (1 + np.max(np.abs(rhs))):
                continue
            x = sol[:n]
            if ok(x):
                f = c.dot(x) + x.dot(Q).dot(x)
                if f < best - 1e-13 * (1 + abs(f)):
                    best, arg = f, x
    for x in pts:
        f = c.dot(x) + x.dot(Q).dot(x)
        if f < best - 1e-13 * (1 + abs(f)):
            best, arg = f, x
    return ("optimal", arg, best)
