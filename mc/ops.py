"""Catalogue of the public operations, as functions of their array arguments.

An Op has arrays() -> dict of arrays, run(arrays) -> result built of arrays, and flags:
random: draws from numpy's global generator;  ints: arrays that may be given as integers;  tol: accuracy of the result.
`objs(arrays)` builds the objects handed to the operation whose state must not change (default none).
"""
import numpy as np

import data
from sut import (designs, domains, gradients, integrals, make_subspaces, misc, optimizers, quadrature, response_surfaces, rs,
                 seeded, simrunners, subspaces, qp_solver)

OPS = []


class Op(object):
    def __init__(self, name, arrays, run, random=False, tol=1e-9, objs=None, slow=False):
        self.name, self.arrays, self._run, self.random, self.tol, self.objs, self.slow = (name, arrays, run, random, tol, objs,
                                                                                          slow)

    def run(self, a, o=None):
        if self.objs is None:
            return self._run(a)
        return self._run(a, self.objs(a) if o is None else o)


def op(name, arrays, random=False, tol=1e-9, objs=None, slow=False):
    def deco(f):
        OPS.append(Op(name, arrays, f, random, tol, objs, slow))
        return f
    return deco


def I(M, m, phase=0.0, k=4):
    """Integer-valued floats without structure."""
    return np.round(k * data.weyl(M, m, phase)) + 0.0


def C(M, m, phase=0.0):
    """Entries -1, 0, 1."""
    return np.round(1.4 * data.weyl(M, m, phase)) + 0.0


def quad(x):
    x = np.asarray(x, float).ravel()
    return float(np.sum(x * x) + x[0] * x[-1] + x[0])


def dquad(x):
    x = np.asarray(x, float).ravel()
    g = 2 * x
    g[0] += x[-1] + 1
    g[-1] += x[0]
    return g.reshape(1, -1)


def outs(X):
    return np.array([[quad(x)] for x in np.asarray(X)])


def xf(M, m, phase=0.0):
    def make():
        X = I(M, m, phase)
        X[0] += 0.0
        return {"X": X, "f": np.round(outs(X)), "weights": (np.arange(M).reshape(M, 1) % 3 + 1.0)}
    return make


def sub(s):
    return [s.eigenvals, s.eigenvecs, s.W1, s.W2, s.e_br, s.sub_br]


# ------------------------------------------------------------------------------------------------------- subspaces
op("active_subspace", lambda: {"df": I(6, 3), "weights": np.arange(1.0, 7).reshape(6, 1)})(
    lambda a: subspaces.active_subspace(a["df"], a["weights"]))
op("ols_subspace", xf(8, 3))(lambda a: subspaces.ols_subspace(a["X"], a["f"], a["weights"]))
op("qphd_subspace", xf(20, 3))(lambda a: subspaces.qphd_subspace(a["X"], a["f"], a["weights"]))
op("opg_subspace", xf(20, 2), random=True)(lambda a: subspaces.opg_subspace(a["X"], a["f"], a["weights"]))


def computes(**kw):
    def run(a):
        s = subspaces.Subspaces()
        s.compute(**dict(a, **kw))
        return sub(s)
    return run


op("Subspaces.compute AS", lambda: {"df": I(6, 3), "weights": np.arange(1.0, 7).reshape(6, 1)})(computes())
op("Subspaces.compute AS default weights", lambda: {"df": I(6, 3)})(computes())
for _t in ("OLS", "QPHD", "OPG"):
    op("Subspaces.compute " + _t, xf(24, 3), random=_t == "OPG")(computes(sstype=_t))
    op("Subspaces.compute {} bootstrap".format(_t), xf(24, 2), random=True)(computes(sstype=_t, nboot=3))
op("Subspaces.compute AS bootstrap RS", lambda: {"df": I(9, 3), "weights": np.arange(1.0, 10).reshape(9, 1)}, random=True)(
    computes(nboot=4, ptype="RS"))
op("Subspaces.compute AS bootstrap LI", lambda: {"df": I(9, 3)}, random=True)(computes(nboot=4, ptype="LI"))
op("eig_partition", lambda: {"e": np.array([[9.0], [5.0], [1.0], [0.0]])})(lambda a: subspaces.eig_partition(a["e"]))
op("errbnd_partition", lambda: {"e": np.array([[9.0], [5.0], [1.0], [0.0]]), "sub_err": np.array([[0.0], [1.0], [1.0]])})(
    lambda a: subspaces.errbnd_partition(a["e"], a["sub_err"]))
op("ladle_partition", lambda: {"e": np.array([[9.0], [5.0], [1.0], [0.0]]), "li_F": np.array([[0.0], [1.0], [3.0], [2.0]])})(
    lambda a: subspaces.ladle_partition(a["e"], a["li_F"]))
op("sorted_eigh", lambda: {"C": np.array([[4.0, 1, 0], [1, 3, 2], [0, 2, 9]])})(lambda a: subspaces.sorted_eigh(a["C"]))


@op("Subspaces.partition", lambda: {"df": I(6, 3)})
def _(a):
    s = subspaces.Subspaces()
    s.compute(df=a["df"])
    out = []
    for n in (1, 3, 2):
        s.partition(n)
        out += [s.W1.copy(), s.W2.copy()]
    return out


# ------------------------------------------------------------------------------------------------------- gradients
op("local_linear_gradients", xf(14, 2), random=True)(
    lambda a: gradients.local_linear_gradients(a["X"], a["f"], p=4, weights=a["weights"]))
op("finite_difference_gradients", lambda: {"X": I(4, 3)}, tol=1e-7)(
    lambda a: gradients.finite_difference_gradients(a["X"], quad, h=2.0 ** -10))

# ----------------------------------------------------------------------------------------------------- normalizing
_lu = lambda: {"lb": np.array([[-1.0], [0.0], [-7.0]]), "ub": np.array([[2.0], [1.0], [-2.0]]), "X": I(4, 3)}
op("BoundedNormalizer.normalize", _lu)(lambda a: misc.BoundedNormalizer(a["lb"], a["ub"]).normalize(a["X"]))
op("BoundedNormalizer.unnormalize", _lu)(lambda a: misc.BoundedNormalizer(a["lb"], a["ub"]).unnormalize(a["X"]))
_mc = lambda: {"mu": np.array([[1.0], [-2.0]]), "C": np.array([[4.0, 1.0], [1.0, 9.0]]), "X": I(4, 2)}
op("UnboundedNormalizer.normalize", _mc)(lambda a: misc.UnboundedNormalizer(a["mu"], a["C"]).normalize(a["X"]))
op("UnboundedNormalizer.unnormalize", _mc)(lambda a: misc.UnboundedNormalizer(a["mu"], a["C"]).unnormalize(a["X"]))
op("process_inputs", lambda: {"X": I(4, 2)})(lambda a: np.array(misc.process_inputs(a["X"])[0]))
op("process_inputs_outputs", xf(4, 2))(lambda a: [np.array(v) for v in misc.process_inputs_outputs(a["X"], a["f"])[:2]])
op("conditional_expectations", lambda: {"f": I(6, 1), "ind": np.array([[0.0], [0], [1], [1], [2], [2]])})(
    lambda a: misc.conditional_expectations(a["f"], a["ind"]))
op("atleast_2d", lambda: {"A": I(1, 4)})(lambda a: [np.array(g(a["A"].ravel()))
                                                    for g in (misc.atleast_2d_col, misc.atleast_2d_row, misc.atleast_2d)])

# --------------------------------------------------------------------------------------------- domains and the maps
_W = {m: data.ortho(m, 0.5) for m in (2, 3, 4)}


def subs(m, n):
    return make_subspaces(_W[m], n=n)


def amap(kind, m, n):
    s = subs(m, n)
    if kind == "bounded":
        return seeded(lambda: domains.BoundedActiveVariableMap(domains.BoundedActiveVariableDomain(s)))
    return domains.UnboundedActiveVariableMap(domains.UnboundedActiveVariableDomain(s))


def dom_result(d):
    c = d.constraints
    v = None if d.vertY is None else d.vertY[np.lexsort(d.vertY.T)]
    return [v, [] if c is None else 1]


op("interval_endpoints", lambda: {"W1": C(4, 1) + 2})(lambda a: domains.interval_endpoints(a["W1"]))
op("zonotope_vertices", lambda: {"W1": np.array([[3.0, 1.0], [-2.0, 5.0], [1.0, 7.0]])}, random=True)(
    lambda a: domains.zonotope_vertices(a["W1"]))
op("unique_rows", lambda: {"S": np.array([[1.0, 2], [0, 1], [1, 2], [0, 0], [0, 1]])})(lambda a: domains.unique_rows(a["S"]))
op("nzv", lambda: {})(lambda a: [np.array([float(domains.nzv(m, n)) for m in (2, 3, 4, 5) for n in (1, 2)])])
for _m, _n in ((3, 1), (3, 2), (4, 2)):
    op("BoundedActiveVariableDomain {} {}".format(_m, _n), lambda: {}, random=_n > 1, objs=lambda a, m=_m, n=_n: {"s": subs(m, n)})(
        lambda a, o: dom_result(domains.BoundedActiveVariableDomain(o["s"])))
for _k in ("bounded", "unbounded"):
    for _m, _n in ((3, 1), (3, 2), (4, 2)) if _k == "bounded" else ((3, 1), (3, 2), (3, 3)):
        _mk = lambda a, k=_k, m=_m, n=_n: {"map": amap(k, m, n)}
        op("forward {} {} {}".format(_k, _m, _n), lambda m=_m: {"X": C(5, m)}, objs=_mk)(lambda a, o: o["map"].forward(a["X"]))
        op("inverse {} {} {}".format(_k, _m, _n), lambda n=_n: {"Y": np.zeros((3, n))}, random=True, objs=_mk, tol=1e-7)(
            lambda a, o: o["map"].inverse(a["Y"], 2))
        op("inverse of points {} {} {}".format(_k, _m, _n), lambda m=_m, n=_n: {"Y": 0.5 * data.weyl(3, m).dot(_W[m][:, :n])},
           random=True, objs=_mk, tol=1e-7)(lambda a, o: o["map"].inverse(a["Y"], 2))
_Z = lambda: {"y": np.zeros(2), "W1": _W[4][:, :2].copy(), "W2": _W[4][:, 2:].copy()}
for _f in (domains.sample_z, domains.hit_and_run_z, domains.random_walk_z, domains.rejection_sampling_z):
    op(_f.__name__, _Z, random=True, tol=1e-7)(lambda a, f=_f: f(3, a["y"], a["W1"], a["W2"]))


# ------------------------------------------------------------------------------------------------------ integration
def rule(kind, m, n):
    return lambda a: {"map": amap(kind, m, n)}


for _k, _m, _n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 1), ("unbounded", 3, 2)):
    _sl = _k == "bounded" and _n == 2
    op("quadrature_rule {} {}".format(_k, _n), lambda: {}, random=True, objs=rule(_k, _m, _n), tol=1e-6, slow=_sl)(
        lambda a, o: integrals.quadrature_rule(o["map"], 4, NMC=2))
    op("av_quadrature_rule {} {}".format(_k, _n), lambda: {}, random=_k == "bounded", objs=rule(_k, _m, _n), tol=1e-6, slow=_sl)(
        lambda a, o: integrals.av_quadrature_rule(o["map"], 4))
    op("integrate {} {}".format(_k, _n), lambda: {}, random=True, objs=rule(_k, _m, _n), tol=1e-6, slow=_sl)(
        lambda a, o: np.array(integrals.integrate(quad, o["map"], 4, NMC=2)))
    op("av_integrate {} {}".format(_k, _n), lambda: {}, random=_k == "bounded", objs=rule(_k, _m, _n), tol=1e-6, slow=_sl)(
        lambda a, o: np.array(integrals.av_integrate(quad, o["map"], 4)))
for _f in (quadrature.gauss_hermite, quadrature.gauss_legendre):
    op(_f.__name__, lambda: {})(lambda a, f=_f: [f([3, 2]), f(4)])
op("one-dimensional rules", lambda: {})(lambda a: [quadrature.gh1d(4), quadrature.gl1d(3), quadrature.g1d(2, "Hermite")])
op("jacobi_matrix", lambda: {"ab": np.array([[0.0, 1.0], [1, 4], [2, 9], [0, 1]])})(lambda a: quadrature.jacobi_matrix(a["ab"]))
op("recurrence coefficients", lambda: {})(lambda a: [quadrature.r_hermite(4), quadrature.r_jacobi(4, -1, 1, 0, 0)])

# ---------------------------------------------------------------------------------------------------------- designs
op("interval_design", lambda: {})(lambda a: [designs.interval_design(-1.0, 2.0, 5)])
op("gauss_hermite_design", lambda: {})(lambda a: [designs.gauss_hermite_design([2, 3])])
op("maximin_design", lambda: {"vert": np.array([[0.0, 0], [4, 0], [5, 3], [2, 5], [-1, 3]])}, tol=1e-6)(
    lambda a: designs.maximin_design(a["vert"], 2))
for _k, _m, _n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 2)):
    op("av_design {} {}".format(_k, _n), lambda: {}, random=True, objs=rule(_k, _m, _n), tol=1e-6)(
        lambda a, o: response_surfaces.av_design(o["map"], 4, NMC=2))


# ------------------------------------------------------------------------------------------------ response surfaces
def poly(N):
    def run(a):
        p = rs.PolynomialApproximation(N=N)
        p.train(a["X"], a["f"], a.get("weights"))
        return [p.predict(a["Xs"], compgrad=True), p.gradient(a["Xs"]), p(a["Xs"]), p.g, p.H]
    return run


def rbf(N, noise=False):
    def run(a):
        p = rs.RadialBasisApproximation(N=N)
        p.train(a["X"], a["f"], v=a.get("v"), e=a.get("e"))
        return [p.predict(a["Xs"], compgrad=True), p.gradient(a["Xs"]), p(a["Xs"])]
    return run


def with_points(make, *drop, **more):
    def f():
        a = make()
        for k in drop:
            del a[k]
        a["Xs"] = I(3, a["X"].shape[1], 5.0)
        a.update((k, np.array(v) if isinstance(v, np.ndarray) else v) for k, v in more.items())     # new arrays at every call
        return a
    return f


for _N in (1, 2, 3):
    op("PolynomialApproximation {}".format(_N), with_points(xf(24, 2)))(poly(_N))
op("PolynomialApproximation 2 three inputs", with_points(xf(24, 3)))(poly(2))
def distinct(M, m):
    """Integer points that differ."""
    i = np.arange(M)
    return np.array([(i * (2 * j + 3) + i * i * j) % (M + 2 - j) for j in range(m)], float).T


def xfd(M, m):
    def make():
        X = distinct(M, m)
        return {"X": X, "f": np.round(outs(X))}
    return make


op("RadialBasisApproximation 1", with_points(xfd(9, 1)), tol=1e-5)(rbf(1))
op("RadialBasisApproximation 2", with_points(xfd(11, 2)), tol=1e-5)(rbf(2))
op("RadialBasisApproximation eigenvalues", with_points(xfd(11, 2), e=np.array([[9.0], [4.0]])), tol=1e-5)(rbf(1))
op("RadialBasisApproximation noise", with_points(xfd(11, 2), v=np.ones((11, 1)), e=np.array([[9.0], [4.0]])), tol=1e-5)(rbf(1))
op("RadialBasisApproximation small noise", with_points(xfd(11, 2), v=10.0 ** -(np.arange(11.0).reshape(11, 1) + 1), e=np.array([[9.0], [4.0]])),
   tol=1e-5)(rbf(1))
op("RadialBasisApproximation no noise", with_points(xfd(11, 2), v=np.zeros((11, 1)), e=np.array([[9.0], [0.0]])), tol=1e-5)(rbf(1))
op("exponential_squared", lambda: {"X1": I(3, 2), "X2": I(4, 2, 2.0), "ell": np.array([[1.0], [2.0]])})(
    lambda a: [rs.exponential_squared(a["X1"], a["X2"], 2.0, a["ell"]), rs.grad_exponential_squared(a["X1"], a["X2"], 2.0, a["ell"])])
op("polynomial_bases", lambda: {"X": I(3, 2)})(lambda a: [rs.polynomial_bases(a["X"], 2)[0], rs.polynomial_bases(a["X"], 2)[1],
                                                       rs.grad_polynomial_bases(a["X"], 2)])
op("index_set", lambda: {})(lambda a: [rs.index_set(2, 3)])


def surface(kind, m, n, resp):
    def run(a, o):
        s = response_surfaces.ActiveSubspaceResponseSurface(o["map"], None if resp is None else rs.PolynomialApproximation(N=resp))
        s.train_with_data(a["X"], a["f"])
        return [s.predict(a["Xs"], compgrad=True), s.gradient(a["Xs"]), s(a["Xs"]), s.predict_av(a["Ys"], True), s.gradient_av(a["Ys"])]
    return run


for _k, _m, _n, _r in (("bounded", 3, 1, 2), ("unbounded", 3, 2, 2), ("bounded", 3, 2, None), ("unbounded", 3, 1, None)):
    op("surface {} {} {}".format(_k, _n, _r), lambda m=_m, n=_n: {"X": C(26, m) if _r else data.weyl(26, m), "f": outs(C(26, m)),
                                                                "Xs": C(3, m, 2.0), "Ys": C(2, n, 3.0)},
       objs=rule(_k, _m, _n), tol=1e-5)(surface(_k, _m, _n, _r))


def interface(kind, m, n, resp, N):
    def run(a, o):
        s = response_surfaces.ActiveSubspaceResponseSurface(o["map"], None if resp is None else rs.PolynomialApproximation(N=resp))
        s.train_with_interface(quad, N, NMC=2)
        return [s.predict(a["Xs"], compgrad=True), s.predict_av(a["Ys"], True)]
    return run


for _k, _m, _n, _r, _N in (("bounded", 3, 1, 2, 5), ("unbounded", 3, 1, None, 7), ("bounded", 3, 2, 1, 3)):
    op("interface {} {}".format(_k, _n), lambda m=_m, n=_n: {"Xs": C(3, m, 2.0), "Ys": C(2, n, 3.0)}, random=True,
       objs=rule(_k, _m, _n), tol=1e-5)(interface(_k, _m, _n, _r, _N))

# ------------------------------------------------------------------------------------------------------ optimization
for _k, _m, _n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 1), ("unbounded", 3, 2)):
    op("av_minimize {} {}".format(_k, _n), lambda: {}, objs=rule(_k, _m, _n), tol=1e-5)(
        lambda a, o: optimizers.av_minimize(quad, o["map"].domain, lambda y: dquad(y).ravel()))
    op("av_minimize without gradient {} {}".format(_k, _n), lambda: {}, objs=rule(_k, _m, _n), tol=1e-5)(
        lambda a, o: optimizers.av_minimize(quad, o["map"].domain))

    def _mm(a, o, k=_k):
        c = optimizers.BoundedMinVariableMap if k == "bounded" else optimizers.UnboundedMinVariableMap
        mp = c(o["map"].domain)
        mp.train(a["X"], a["f"])
        return mp.inverse(a["Y"])
    op("minimizing map {} {}".format(_k, _n), lambda m=_m, n=_n: {"X": I(40, m), "f": outs(I(40, m)), "Y": np.zeros((2, n))},
       objs=rule(_k, _m, _n), tol=1e-4)(_mm)

    def _mn(a, o):
        s = response_surfaces.ActiveSubspaceResponseSurface(o["map"], rs.PolynomialApproximation(N=2))
        s.train_with_data(a["X"], a["f"])
        return optimizers.minimize(s, a["X"], a["f"])
    op("minimize {} {}".format(_k, _n), lambda m=_m: {"X": I(40, m), "f": np.sum(I(40, m) ** 2, axis=1).reshape(-1, 1) + 1},
       objs=rule(_k, _m, _n), tol=1e-4)(_mn)

# --------------------------------------------------------------------------------------------------------- programs
_c = lambda *v: np.array(v, float).reshape(-1, 1)
op("linear_program_eq", lambda: {"c": _c(1, -2), "A": np.array([[1.0, 1.0]]), "b": _c(1), "lb": _c(-1, -1), "ub": _c(1, 1)}, tol=1e-6)(
    lambda a: qp_solver.QPSolver().linear_program_eq(a["c"], a["A"], a["b"], a["lb"], a["ub"]))
op("linear_program_ineq", lambda: {"c": _c(1, -2), "A": np.vstack((np.eye(2), -np.eye(2))), "b": _c(-1, -1, -1, -1)}, tol=1e-6)(
    lambda a: qp_solver.QPSolver().linear_program_ineq(a["c"], a["A"], a["b"]))
op("quadratic_program_bnd", lambda: {"c": _c(1, -2), "Q": np.array([[2.0, 1], [1, 3]]), "lb": _c(-1, -1), "ub": _c(1, 1)}, tol=1e-4)(
    lambda a: qp_solver.QPSolver().quadratic_program_bnd(a["c"], a["Q"], a["lb"], a["ub"]))
op("quadratic_program_ineq", lambda: {"c": _c(1, -2), "Q": np.array([[2.0, 1], [1, 3]]), "A": np.vstack((np.eye(2), -np.eye(2))),
                                    "b": _c(-1, -1, -1, -1)}, tol=1e-4)(
    lambda a: qp_solver.QPSolver().quadratic_program_ineq(a["c"], a["Q"], a["A"], a["b"]))

# ------------------------------------------------------------------------------------------------------ simulations
op("SimulationRunner", lambda: {"X": I(4, 3)})(lambda a: simrunners.SimulationRunner(quad).run(a["X"]))
op("SimulationGradientRunner", lambda: {"X": I(4, 3)})(lambda a: simrunners.SimulationGradientRunner(dquad).run(a["X"]))


# operations that fail, for what they leave behind
FAILING = []


def failing(name, arrays, run, random=False, objs=None):
    FAILING.append(Op(name, arrays, run, random, objs=objs))


def _boom(x):
    raise RuntimeError("boom")


failing("infeasible linear program", lambda: {}, lambda a: qp_solver.QPSolver().linear_program_ineq(_c(1), _c(1, -1), _c(1, 0)))
failing("infeasible equations", lambda: {}, lambda a: qp_solver.QPSolver().linear_program_eq(_c(1), _c(1), _c(5), _c(-1), _c(1)))
failing("infeasible bounds", lambda: {}, lambda a: qp_solver.QPSolver().quadratic_program_bnd(_c(1), np.eye(1), _c(1), _c(-1)))
failing("infeasible quadratic program", lambda: {},
        lambda a: qp_solver.QPSolver().quadratic_program_ineq(_c(1), np.eye(1), _c(1, -1), _c(1, 0)))
for _k, _m, _n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 1), ("unbounded", 3, 2)):
    failing("failing av_minimize {} {}".format(_k, _n), lambda: {},
            lambda a, o: optimizers.av_minimize(_boom, o["map"].domain), objs=rule(_k, _m, _n))
failing("failing simulation", lambda: {"X": I(3, 2)}, lambda a: simrunners.SimulationRunner(_boom).run(a["X"]))
failing("failing gradients", lambda: {"X": I(3, 2)}, lambda a: gradients.finite_difference_gradients(a["X"], _boom))
failing("too few samples", lambda: {"X": I(3, 2), "f": I(3, 1)}, lambda a: rs.PolynomialApproximation(2).train(a["X"], a["f"]))
failing("too few samples for bases", lambda: {"X": I(3, 2), "f": I(3, 1)}, lambda a: rs.RadialBasisApproximation(2).train(a["X"], a["f"]))
failing("maximin design of one dimension", lambda: {}, lambda a: designs.maximin_design(np.array([[0.0], [1.0]]), 2))
failing("covariance not definite", lambda: {}, lambda a: misc.UnboundedNormalizer(_c(0, 0), -np.eye(2)))
failing("compute without data", lambda: {}, lambda a: subspaces.Subspaces().compute())


# ------------------------------------------- the same operations on one point, on many, in many dimensions and degrees
LARGE = []


def large(name, arrays, run, random=False, tol=1e-9, objs=None):
    LARGE.append(Op("{} (size)".format(name), arrays, run, random, tol, objs))


for _M, _m in ((40, 5), (101, 3), (257, 2), (60, 12), (1031, 3), (3001, 2)):
    large("active_subspace {} {}".format(_M, _m), lambda M=_M, m=_m: {"df": I(M, m), "weights": np.arange(M).reshape(M, 1) % 3 + 1.0},
          lambda a: subspaces.active_subspace(a["df"], a["weights"]))
    large("sorted_eigh {} {}".format(_M, _m), lambda M=_M, m=_m: {"C": I(M, m).T.dot(I(M, m))}, lambda a: subspaces.sorted_eigh(a["C"]), tol=1e-7)
    large("ols_subspace {} {}".format(_M, _m), xf(_M, _m), lambda a: subspaces.ols_subspace(a["X"], a["f"], a["weights"]))
    if _m < 4:
        large("qphd_subspace {} {}".format(_M, _m), xf(_M, _m), lambda a: subspaces.qphd_subspace(a["X"], a["f"], a["weights"]))
        large("opg_subspace {} {}".format(_M, _m), xf(_M, _m), lambda a: subspaces.opg_subspace(a["X"], a["f"], a["weights"]), random=True)
        large("local_linear_gradients {} {}".format(_M, _m), xf(_M, _m),
              lambda a: gradients.local_linear_gradients(a["X"], a["f"], weights=a["weights"]), random=True)
    large("Subspaces.compute {} {}".format(_M, _m), lambda M=_M, m=_m: {"df": I(M, m), "weights": np.arange(M).reshape(M, 1) % 3 + 1.0},
          computes())
    large("Subspaces.compute OLS {} {}".format(_M, _m), xf(_M, _m), computes(sstype="OLS"))
    large("Subspaces.compute bootstrap {} {}".format(_M, _m), lambda M=_M, m=_m: {"df": I(M, m)}, computes(nboot=11), random=True)
large("eig_partition", lambda: {"e": (np.arange(33.0)[::-1] ** 3).reshape(-1, 1)}, lambda a: subspaces.eig_partition(a["e"]))
large("errbnd_partition", lambda: {"e": (np.arange(33.0)[::-1] ** 3).reshape(-1, 1), "sub_err": np.arange(32.0).reshape(-1, 1) % 5},
      lambda a: subspaces.errbnd_partition(a["e"], a["sub_err"]))
large("ladle_partition", lambda: {"e": (np.arange(33.0)[::-1] ** 3).reshape(-1, 1), "li_F": np.arange(33.0).reshape(-1, 1) % 7},
      lambda a: subspaces.ladle_partition(a["e"], a["li_F"]))
for _M in (1, 2, 101, 257, 1031):
    _lum = lambda M=_M: dict(_lu(), X=I(M, 3))
    large("BoundedNormalizer.normalize {}".format(_M), _lum, lambda a: misc.BoundedNormalizer(a["lb"], a["ub"]).normalize(a["X"]))
    large("BoundedNormalizer.unnormalize {}".format(_M), _lum, lambda a: misc.BoundedNormalizer(a["lb"], a["ub"]).unnormalize(a["X"]))
    _mcm = lambda M=_M: dict(_mc(), X=I(M, 2))
    large("UnboundedNormalizer.normalize {}".format(_M), _mcm, lambda a: misc.UnboundedNormalizer(a["mu"], a["C"]).normalize(a["X"]))
    large("UnboundedNormalizer.unnormalize {}".format(_M), _mcm, lambda a: misc.UnboundedNormalizer(a["mu"], a["C"]).unnormalize(a["X"]))
    large("process_inputs {}".format(_M), lambda M=_M: {"X": I(M, 2)}, lambda a: np.array(misc.process_inputs(a["X"])[0]))
    large("process_inputs_outputs {}".format(_M), xf(_M, 2), lambda a: [np.array(v) for v in misc.process_inputs_outputs(a["X"], a["f"])[:2]])
    large("conditional_expectations {}".format(_M), lambda M=_M: {"f": I(M, 1), "ind": (np.arange(M) // 3).reshape(M, 1) * 1.0},
          lambda a: misc.conditional_expectations(a["f"], a["ind"]))
    large("SimulationRunner {}".format(_M), lambda M=_M: {"X": I(M, 3)}, lambda a: simrunners.SimulationRunner(quad).run(a["X"]))
    large("SimulationGradientRunner {}".format(_M), lambda M=_M: {"X": I(M, 3)}, lambda a: simrunners.SimulationGradientRunner(dquad).run(a["X"]))
    if _M < 300:
        large("finite_difference_gradients {}".format(_M), lambda M=_M: {"X": I(M, 3)},
              lambda a: gradients.finite_difference_gradients(a["X"], quad, h=2.0 ** -10), tol=1e-7)
    for _k, _m, _n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 1), ("unbounded", 4, 2), ("bounded", 4, 3)):
        _mk = lambda a, k=_k, m=_m, n=_n: {"map": amap(k, m, n)}
        large("forward {} {} {} {}".format(_M, _k, _m, _n), lambda M=_M, m=_m: {"X": C(M, m)}, lambda a, o: o["map"].forward(a["X"]), objs=_mk)
    _PX = lambda M=_M: with_points(xf(24, 2), Xs=I(M, 2, 5.0))
    large("PolynomialApproximation at {}".format(_M), _PX(), poly(2))
    large("RadialBasisApproximation at {}".format(_M), with_points(xfd(11, 2), Xs=I(_M, 2, 5.0)), rbf(1), tol=1e-5)
    large("surface at {}".format(_M), lambda M=_M: {"X": C(26, 3), "f": outs(C(26, 3)), "Xs": C(M, 3, 2.0), "Ys": C(M, 2, 3.0)},
          surface("unbounded", 3, 2, 2), objs=rule("unbounded", 3, 2), tol=1e-5)
    large("exponential_squared {}".format(_M), lambda M=_M: {"X1": I(M, 2), "X2": I(4, 2, 2.0), "ell": np.array([[1.0], [2.0]])},
          lambda a: [rs.exponential_squared(a["X1"], a["X2"], 2.0, a["ell"]), rs.grad_exponential_squared(a["X1"], a["X2"], 2.0, a["ell"])])
    large("polynomial_bases {}".format(_M), lambda M=_M: {"X": C(M, 2)},
          lambda a: [rs.polynomial_bases(a["X"], 4)[0], rs.polynomial_bases(a["X"], 4)[1], rs.grad_polynomial_bases(a["X"], 4)])
for _k, _m, _n, _NY, _N in (("bounded", 3, 1, 1, 1), ("bounded", 3, 2, 1, 30), ("bounded", 4, 2, 25, 2), ("unbounded", 3, 1, 1, 1), ("unbounded", 4, 2, 1, 3001), ("unbounded", 3, 1, 1201, 2),
                            ("unbounded", 4, 2, 1, 101), ("unbounded", 4, 2, 101, 3), ("bounded", 4, 1, 1, 101)):
    large("inverse {} {} {} {} {}".format(_k, _m, _n, _NY, _N), lambda m=_m, n=_n, NY=_NY: {"Y": 0.5 * data.weyl(NY, m).dot(_W[m][:, :n])},
          lambda a, o, N=_N: o["map"].inverse(a["Y"], N), random=True, objs=(lambda a, k=_k, m=_m, n=_n: {"map": amap(k, m, n)}), tol=1e-7)
for _f in (domains.sample_z, domains.hit_and_run_z, domains.random_walk_z, domains.rejection_sampling_z):
    for _N in (1, 30, 128):
        large("{} {}".format(_f.__name__, _N), _Z, lambda a, f=_f, N=_N: f(N, a["y"], a["W1"], a["W2"]), random=True, tol=1e-7)
for _N in (1, 10, 30, 130):
    for _k, _m, _n in (("bounded", 3, 1), ("unbounded", 3, 1)):
        large("quadrature_rule {} {} {}".format(_k, _n, _N), lambda: {}, lambda a, o, N=_N: integrals.quadrature_rule(o["map"], N, NMC=11),
              random=True, objs=rule(_k, _m, _n), tol=1e-6)
        large("integrate {} {} {}".format(_k, _n, _N), lambda: {}, lambda a, o, N=_N: np.array(integrals.integrate(quad, o["map"], N, NMC=11)),
              random=True, objs=rule(_k, _m, _n), tol=1e-6)
        large("av_design {} {} {}".format(_k, _n, _N), lambda: {}, lambda a, o, N=_N: response_surfaces.av_design(o["map"], N + 1, NMC=1),
              random=True, objs=rule(_k, _m, _n), tol=1e-6)
        if _k == "unbounded":
            large("av_quadrature_rule {} {} {}".format(_k, _n, _N), lambda: {}, lambda a, o, N=_N: integrals.av_quadrature_rule(o["map"], N),
                  objs=rule(_k, _m, _n), tol=1e-6)
for _N in (1, 2, 9, 10, 11, 16, 25, 26, 30, 33, 50, 64, 100, 129):
    large("gh1d {}".format(_N), lambda: {}, lambda a, N=_N: [quadrature.gh1d(N), quadrature.gauss_hermite(N)], tol=1e-6)
    large("gl1d {}".format(_N), lambda: {}, lambda a, N=_N: [quadrature.gl1d(N), quadrature.gauss_legendre(N)], tol=1e-6)
    large("interval_design {}".format(_N), lambda: {}, lambda a, N=_N: designs.interval_design(-1.0, 2.0, N + 1))
    if _N > 1:
        large("recurrence coefficients {}".format(_N), lambda: {}, lambda a, N=_N: [quadrature.r_hermite(N), quadrature.r_jacobi(N, -1, 1, 0, 0)])
        large("gauss_hermite_design {}".format(_N), lambda: {}, lambda a, N=_N: designs.gauss_hermite_design([N]), tol=1e-6)
for _d in ([30, 2], [2, 26], [11, 12], [3, 4, 5], [2, 2, 2, 2, 2], [10, 10, 3], [40, 40]):
    large("tensor rules {}".format(_d), lambda: {}, lambda a, d=_d: [quadrature.gauss_hermite(d), quadrature.gauss_legendre(d),
                                                                    designs.gauss_hermite_design(d)], tol=1e-6)
for _N in (1, 4, 7):
    large("maximin_design {}".format(_N), lambda: {"vert": np.array([[0.0, 0], [4, 0], [5, 3], [2, 5], [-1, 3]])},
          lambda a, N=_N: designs.maximin_design(a["vert"], N), tol=1e-4)
for _N, _M, _m in ((2, 101, 2), (4, 40, 2), (7, 60, 1), (2, 257, 3), (1, 101, 12), (3, 130, 3)):
    large("PolynomialApproximation {} {} {}".format(_N, _M, _m), with_points(lambda M=_M, m=_m: {"X": C(M, m) if _N < 4 else data.weyl(M, m), "f": outs(C(M, m)),
                                                                            "weights": np.arange(M).reshape(M, 1) % 3 + 1.0}), poly(_N), tol=1e-6)
for _N, _M, _m in ((1, 60, 2), (0, 101, 2), (2, 51, 1)):
    large("RadialBasisApproximation {} {} {}".format(_N, _M, _m), with_points(lambda M=_M, m=_m: {"X": data.weyl(M, m), "f": outs(data.weyl(M, m))}),
          rbf(_N), tol=1e-4)
for _k, _m, _n in (("bounded", 4, 2), ("bounded", 4, 3), ("unbounded", 4, 3)):
    large("av_minimize {} {} {}".format(_k, _m, _n), lambda: {}, lambda a, o: optimizers.av_minimize(quad, o["map"].domain),
          objs=rule(_k, _m, _n), tol=1e-5)

    def _mm(a, o, k=_k):
        c = optimizers.BoundedMinVariableMap if k == "bounded" else optimizers.UnboundedMinVariableMap
        mp = c(o["map"].domain)
        mp.train(a["X"], a["f"])
        return mp.inverse(a["Y"])
    for _NY in (1, 33):
        large("minimizing map {} {} {}".format(_k, _n, _NY), lambda m=_m, n=_n, NY=_NY: {"X": I(60, m), "f": outs(I(60, m)),
              "Y": 0.5 * data.weyl(NY, m).dot(_W[m][:, :n])}, _mm, objs=rule(_k, _m, _n), tol=1e-3)


# ------------------------------------------------------------- objects made once and asked with the caller's own arrays
def _trained(make, N=2):
    def objs(a):
        p = make(N)
        p.train(data.weyl(40, 2), outs(data.weyl(40, 2)))
        return {"p": p}
    return objs


_ask = lambda a, o: [o["p"].predict(a["Xs"], compgrad=True), o["p"].gradient(a["Xs"]), o["p"](a["Xs"]), o["p"].predict(a["Xs"])]
for _M in (1, 3, 101):
    for _nm, _cls in (("PolynomialApproximation", rs.PolynomialApproximation), ("RadialBasisApproximation", rs.RadialBasisApproximation)):
        large("{} asked at {}".format(_nm, _M), lambda M=_M: {"Xs": C(M, 2, 5.0)}, _ask, objs=_trained(lambda N, c=_cls: c(N=N)), tol=1e-6)
    for _k, _m, _n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 4, 2)):
        def _surf(a, k=_k, m=_m, n=_n):
            s = response_surfaces.ActiveSubspaceResponseSurface(amap(k, m, n), rs.PolynomialApproximation(N=2))
            s.train_with_data(data.weyl(40, m), outs(data.weyl(40, m)))
            return {"s": s}
        large("surface asked at {} {} {}".format(_M, _k, _n), lambda M=_M, m=_m, n=_n: {"Xs": C(M, m, 2.0), "Ys": C(M, n, 3.0)},
              lambda a, o: [o["s"].predict(a["Xs"], compgrad=True), o["s"].gradient(a["Xs"]), o["s"](a["Xs"]), o["s"].predict(a["Xs"]),
                            o["s"].predict_av(a["Ys"], True), o["s"].predict_av(a["Ys"]), o["s"].gradient_av(a["Ys"])], objs=_surf, tol=1e-6)

        def _mv(a, k=_k, m=_m, n=_n):
            p = (optimizers.BoundedMinVariableMap if k == "bounded" else optimizers.UnboundedMinVariableMap)(amap(k, m, n).domain)
            p.train(I(40, m), outs(I(40, m)))
            return {"p": p}
        if _M < 100:
            large("minimizing map asked at {} {} {}".format(_M, _k, _n), lambda M=_M, m=_m, n=_n: {"Y": 0.3 * data.weyl(M, m).dot(_W[m][:, :n])},
                  lambda a, o: o["p"].inverse(a["Y"]), objs=_mv, tol=1e-3)
    large("BoundedNormalizer asked {}".format(_M), lambda M=_M: {"X": I(M, 3)}, lambda a, o: [o["b"].normalize(a["X"]), o["b"].unnormalize(a["X"])],
          objs=lambda a: {"b": misc.BoundedNormalizer(np.array([[-1.0], [0.0], [-7.0]]), np.array([[2.0], [1.0], [-2.0]]))})
    large("UnboundedNormalizer asked {}".format(_M), lambda M=_M: {"X": I(M, 2)}, lambda a, o: [o["b"].normalize(a["X"]), o["b"].unnormalize(a["X"])],
          objs=lambda a: {"b": misc.UnboundedNormalizer(np.array([[1.0], [-2.0]]), np.array([[4.0, 1.0], [1.0, 9.0]]))})
    large("SimulationRunner asked {}".format(_M), lambda M=_M: {"X": I(M, 3)}, lambda a, o: o["r"].run(a["X"]),
          objs=lambda a: {"r": simrunners.SimulationRunner(quad)})
    large("SimulationGradientRunner asked {}".format(_M), lambda M=_M: {"X": I(M, 3)}, lambda a, o: o["r"].run(a["X"]),
          objs=lambda a: {"r": simrunners.SimulationGradientRunner(dquad)})
for _k, _m, _n in (("bounded", 3, 1), ("unbounded", 4, 2)):
    def _surf2(a, k=_k, m=_m, n=_n):
        s = response_surfaces.ActiveSubspaceResponseSurface(amap(k, m, n), rs.PolynomialApproximation(N=2))
        s.train_with_data(C(60, m), outs(C(60, m)) + 3 * np.sum(C(60, m) ** 2, axis=1).reshape(-1, 1))
        return {"s": s}
    large("minimize asked {} {}".format(_k, _n), lambda m=_m: {"X": C(60, m, 2.0), "f": outs(C(60, m, 2.0))},
          lambda a, o: optimizers.minimize(o["s"], a["X"], a["f"]), objs=_surf2, tol=1e-3)

# ---------------------------------------------------------------------- objects computed or trained again, and then asked
AGAIN = []


def again(name, arrays, run, random=False, tol=1e-9, objs=None):
    AGAIN.append(Op("{} (again)".format(name), arrays, run, random, tol, objs))


def _compute(kw):
    def run(a, o):
        o["s"].compute(**dict(a, **kw))
        return sub(o["s"])
    return run


_one = lambda a: {"s": subspaces.Subspaces()}
again("Subspaces.compute AS", lambda: {"df": I(9, 3), "weights": np.arange(1.0, 10).reshape(9, 1)}, _compute({}), objs=_one)
again("Subspaces.compute AS bootstrap", lambda: {"df": I(9, 3)}, _compute({"nboot": 4, "ptype": "LI"}), random=True, objs=_one)
for _t in ("OLS", "QPHD", "OPG"):
    again("Subspaces.compute " + _t, xf(24, 3), _compute({"sstype": _t}), random=_t == "OPG", objs=_one)


def _train(a, o):
    o["p"].train(*[a[k] for k in ("X", "f", "weights") if k in a])
    return [o["p"].predict(a["Xs"], compgrad=True), getattr(o["p"], "g", None), getattr(o["p"], "H", None)]


for _N in (1, 2, 3):
    again("PolynomialApproximation {}".format(_N), with_points(xf(24, 2)), _train, objs=lambda a, N=_N: {"p": rs.PolynomialApproximation(N=N)}, tol=1e-6)
again("RadialBasisApproximation 1", with_points(xfd(11, 2)), _train, objs=lambda a: {"p": rs.RadialBasisApproximation(N=1)}, tol=1e-5)
for _k, _m, _n in (("bounded", 3, 1), ("unbounded", 3, 2)):
    def _ts(a, o):
        o["s"].train_with_data(a["X"], a["f"])
        return [o["s"].predict(a["Xs"], compgrad=True)]
    again("surface {} {}".format(_k, _n), lambda: {"X": C(26, 3), "f": outs(C(26, 3)), "Xs": C(3, 3, 2.0)}, _ts, tol=1e-5,
          objs=lambda a, k=_k, m=_m, n=_n: {"s": response_surfaces.ActiveSubspaceResponseSurface(amap(k, m, n), rs.PolynomialApproximation(N=2))})

    def _tm(a, o):
        o["p"].train(a["X"], a["f"])
        return o["p"].inverse(a["Y"])
    again("minimizing map {} {}".format(_k, _n), lambda m=_m, n=_n: {"X": I(40, m), "f": outs(I(40, m)), "Y": np.zeros((2, n))}, _tm, tol=1e-3,
          objs=lambda a, k=_k, m=_m, n=_n: {"p": (optimizers.BoundedMinVariableMap if k == "bounded" else optimizers.UnboundedMinVariableMap)(
              amap(k, m, n).domain)})


def flat(r, out=None):
    """The arrays of a result, in order."""
    out = [] if out is None else out
    if r is None:
        out.append(np.zeros((0, 7)))
    elif isinstance(r, (list, tuple)):
        for v in r:
            flat(v, out)
    else:
        out.append(np.asarray(r))
    return out


for _ops in (OPS, LARGE, FAILING):
    assert len({o.name for o in _ops}) == len(_ops), sorted(o.name for o in _ops)
