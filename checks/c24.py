"""C24: invalid arguments are refused before any work is done."""
import itertools

import numpy as np

import data
from core import Job, close, fail
from ops import amap, dquad, flat, outs, quad
from sut import (designs, domains, gradients, integrals, make_subspaces, misc, optimizers, plotters, quadrature,
                 response_surfaces, rs, simrunners, snapshot, subspaces)

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration: every entry point x every set of up to two (three) violated arguments x every call sequence around the refusal"
RULE = ("every public entry point x every documented violation of one argument, of two and (thorough) three arguments together x "
        "before, between and after valid calls; every nearest valid argument")
ASSUMPTIONS = ["an argument is excluded when the documentation gives its class, shape or range and the code is to refuse it"]


class User(object):
    """A simulation that records being run."""
    calls = 0

    def __init__(self, fun=quad):
        self.fun = fun

    def __call__(self, x):
        User.calls += 1
        return self.fun(x)


class Other(object):
    """An object that looks like a map, a domain or subspaces."""

    def __init__(self, o):
        self.__dict__.update(getattr(o, "__dict__", {}))
        self._o = o

    def __getattr__(self, k):
        return getattr(self.__dict__["_o"], k)


class Entry(object):
    def __init__(self, name, base, call, bad, good=()):
        self.name, self.base, self.call, self.bad, self.good = name, base, call, bad, good


K = lambda v: (lambda: v)
# violations of common kinds of arguments; the factory gets the valid value
FLAT = [("one-dimensional", lambda v: np.asarray(v).ravel()), ("three-dimensional", lambda v: np.asarray(v)[:, :, None])]
COLS = [("two columns", lambda v: np.hstack((v, v))), ("no column", lambda v: v[:, :0])]
ROWS = [("one row less", lambda v: v[:-1]), ("one row more", lambda v: np.vstack((v, v[:1])))]
OUT = FLAT + COLS + ROWS
NINT = [("float", lambda v: float(v)), ("fraction", lambda v: v + 0.5), ("string", lambda v: str(v)), ("None", lambda v: None),
        ("list", lambda v: [v]), ("array", lambda v: np.array([v])), ("numpy float", lambda v: np.float64(v)),
        ("numpy float32", lambda v: np.float32(v)), ("nan", lambda v: float("nan")), ("infinity", lambda v: float("inf")),
        ("tuple", lambda v: (v,)), ("bytes", lambda v: b"3")]
MAP = [("None", lambda v: None), ("its domain", lambda v: v.domain), ("number", lambda v: 3), ("lookalike", lambda v: Other(v)),
       ("the class", lambda v: type(v))]
FUN = [("None", lambda v: None), ("number", lambda v: 3), ("array", lambda v: np.ones((2, 2))), ("string", lambda v: "f")]


def drop(bad, *names):
    return [b for b in bad if b[0] not in names]


def bare(s):
    t = subspaces.Subspaces()
    return t


SUB = [("None", lambda v: None), ("its eigenvectors", lambda v: v.eigenvecs), ("lookalike", lambda v: Other(v)), ("uncomputed", bare),
       ("the class", lambda v: subspaces.Subspaces)]


def entries():
    E = []

    def add(name, base, call, bad, good=()):
        E.append(Entry(name, base, call, bad, good))

    XF = lambda M, m: {"X": lambda: data.weyl(M, m), "f": lambda: outs(data.weyl(M, m))}
    # ---------------------------------------------------------------------------------------------- subspaces
    def comp(**a):
        s = subspaces.Subspaces()
        s.compute(**a)
        return [s.eigenvals, s.eigenvecs, s.W1, s.W2, s.e_br, s.sub_br]
    missing = [("missing", lambda v: None)]
    stype = [("unknown", lambda v: "XYZ"), ("lower case", lambda v: v.lower()), ("None", lambda v: None), ("empty", lambda v: ""),
             ("bytes", lambda v: v.encode()), ("tuple", lambda v: (v,)), ("capitalized", lambda v: v.capitalize()), ("reversed", lambda v: v[::-1]),
             ("twice", lambda v: v + v), ("first letter", lambda v: v[:1]), ("last letter", lambda v: v[-1:]), ("number", lambda v: 0)]
    # every name that differs in one letter
    for i in range(4):
        stype.append(("without letter {}".format(i), lambda v, i=i: v[:i] + v[i + 1:] if i < len(v) else ""))
        for c in "ASOLQPHDGEVRIXs 0":
            stype.append(("letter {} is {}".format(i, c), lambda v, i=i, c=c: v[:i] + c + v[i + 1:] if i < len(v) and v[i] != c else "?"))
            stype.append(("{} before letter {}".format(c, i), lambda v, i=i, c=c: v[:i] + c + v[i:]))
    ptypes = stype
    needboot = [("RS without bootstrap", lambda v: "RS"), ("LI without bootstrap", lambda v: "LI")]
    add("Subspaces.compute AS", {"df": lambda: data.weyl(6, 3), "sstype": K("AS"), "ptype": K("EVG")}, comp,
        {"df": FLAT + missing, "sstype": stype, "ptype": ptypes + needboot})
    for b in ("EVG", "RS", "LI"):
        add("Subspaces.compute AS bootstrap " + b, {"df": lambda: data.weyl(8, 3), "sstype": K("AS"), "ptype": K(b), "nboot": K(2)}, comp,
            {"df": FLAT + missing, "sstype": stype, "ptype": ptypes} if b == "EVG" else
            {"df": FLAT + missing, "sstype": stype, "ptype": ptypes, "nboot": [("none", lambda v: 0)]},
            [{"nboot": K(1)}, {"nboot": K(3)}])
    for t, M in (("OLS", 5), ("QPHD", 12), ("OPG", 7)):
        base = dict(XF(M, 3), sstype=K(t), ptype=K("EVG"))
        fbad = OUT + missing
        add("Subspaces.compute " + t, base, comp, {"X": FLAT + missing, "f": fbad, "sstype": stype, "ptype": ptypes + needboot})
        add("Subspaces.compute {} without data".format(t), dict(base, df=lambda M=M: data.weyl(M, 3)), comp,
            {"X": missing, "f": missing, "sstype": stype})
        w = lambda M=M: np.ones((M, 1)) / M
        add(t.lower() + "_subspace", dict(XF(M, 3), weights=w), lambda t=t, **a: getattr(subspaces, t.lower() + "_subspace")(**a),
            {"X": FLAT, "f": OUT})
    add("Subspaces.compute with inputs, AS", dict(XF(6, 3), df=lambda: data.weyl(6, 3)), comp, {"df": FLAT + missing, "X": FLAT})
    add("active_subspace", {"df": lambda: data.weyl(6, 3), "weights": lambda: np.ones((6, 1)) / 6}, subspaces.active_subspace, {"df": FLAT})

    def few(t, M):
        def call(X, f):
            return comp(X=X[:len(f)], f=f[:len(X)], sstype=t)
        return call
    add("QPHD of too few", XF(10, 3), few("QPHD", 10), {"X": [("9", lambda v: v[:9]), ("5", lambda v: v[:5])], "f": [("9", lambda v: v[:9])]})
    add("OPG of too few", XF(5, 3), few("OPG", 5), {"X": [("3", lambda v: v[:3]), ("1", lambda v: v[:1])], "f": [("3", lambda v: v[:3])]})

    for m in (2, 3, 4):
        def part(s, n):
            s.partition(n)
            return [s.W1, s.W2]
        add("Subspaces.partition of {}".format(m), {"s": lambda m=m: make_subspaces(data.ortho(m, 0.3)), "n": K(1)}, part,
            {"n": NINT + [("0", lambda v: 0), ("-1", lambda v: -1), ("m+1", lambda v, m=m: m + 1), ("-m", lambda v, m=m: -m),
                          ("10m", lambda v, m=m: 10 * m)]}, [{"n": K(k)} for k in range(1, m + 1)])

    # -------------------------------------------------------------------------------------------------- domains
    for m, n in ((2, 1), (3, 1), (3, 2)):
        S = lambda m=m, n=n: make_subspaces(data.ortho(m, 0.3), n=n)
        add("UnboundedActiveVariableDomain {} {}".format(m, n), {"subspaces": S},
            lambda subspaces: [domains.UnboundedActiveVariableDomain(subspaces).subspaces.W1], {"subspaces": SUB})
        add("BoundedActiveVariableDomain {} {}".format(m, n), {"subspaces": S},
            lambda subspaces: [np.sort(domains.BoundedActiveVariableDomain(subspaces).vertY, axis=0)], {"subspaces": SUB})
        for kind in ("bounded", "unbounded"):
            mk = lambda kind=kind, m=m, n=n: amap(kind, m, n)
            add("forward {} {} {}".format(kind, m, n), {"map": mk, "X": lambda m=m: data.weyl(4, m)}, lambda map, X: map.forward(X),
                {"X": FLAT})
            add("inverse {} {} {}".format(kind, m, n), {"map": mk, "Y": lambda n=n: 0.1 * data.weyl(3, n), "N": K(2)},
                lambda map, Y, N: map.inverse(Y, N), {"Y": FLAT, "N": NINT}, [{"N": K(1)}, {"N": K(3)}])
    add("nzv", {"m": K(4), "n": K(2)}, domains.nzv, {"m": NINT, "n": NINT}, [{"n": K(1)}, {"n": K(4)}])
    add("sample_z", {"N": K(2), "y": lambda: np.zeros((2,)), "W1": lambda: data.ortho(4, 0.3)[:, :2], "W2": lambda: data.ortho(4, 0.3)[:, 2:]},
        domains.sample_z, {"N": NINT}, [{"N": K(1)}])

    # ------------------------------------------------------------------------------------------------ gradients
    for m in (2, 3):
        for M in (m + 2, 2 * m + 3):
            add("local_linear_gradients {} of {}".format(M, m), dict(XF(M, m), p=K(m + 1)), gradients.local_linear_gradients,
                {"X": FLAT + [("m samples", lambda v, m=m: v[:m]), ("one sample", lambda v: v[:1])],
                 "p": drop(NINT, "None") + [("m", lambda v, m=m: m), ("1", lambda v: 1), ("0", lambda v: 0), ("negative", lambda v: -v),
                                             ("M+1", lambda v, M=M: M + 1)]}, [{"p": K(k)} for k in range(m + 1, M + 1)])
        add("local_linear_gradients m+1 of {}".format(m), dict(XF(m + 1, m), p=K(m + 1)), gradients.local_linear_gradients,
            {"X": FLAT + [("m samples", lambda v, m=m: v[:m])], "p": [("m", lambda v, m=m: m), ("m+2", lambda v, m=m: m + 2)]})
        for run in (False, True):
            add("finite_difference_gradients {} {}".format(m, run),
                {"X": lambda m=m: data.weyl(3, m), "fun": lambda run=run: simrunners.SimulationRunner(User()) if run else User()},
                gradients.finite_difference_gradients, {"X": FLAT, "fun": FUN})

    # ------------------------------------------------------------------------------------------------ integrals
    for kind, m, n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 1), ("unbounded", 3, 2)):
        mk = lambda kind=kind, m=m, n=n: amap(kind, m, n)
        U = lambda: User()
        tag = " {} {}".format(kind, n)
        add("integrate" + tag, {"fun": U, "avmap": mk, "N": K(4), "NMC": K(2)}, lambda **a: list(integrals.integrate(**a)),
            {"fun": FUN, "avmap": MAP, "N": NINT, "NMC": NINT})
        add("av_integrate" + tag, {"avfun": U, "avmap": mk, "N": K(4)}, lambda **a: [integrals.av_integrate(**a)],
            {"avfun": FUN, "avmap": MAP, "N": NINT})
        add("quadrature_rule" + tag, {"avmap": mk, "N": K(4), "NMC": K(2)}, integrals.quadrature_rule,
            {"avmap": MAP, "N": NINT, "NMC": NINT})
        add("av_quadrature_rule" + tag, {"avmap": mk, "N": K(4)}, integrals.av_quadrature_rule,
            {"avmap": [b for b in MAP if b[0] in ("None", "number", "the class")]})
        add("av_design" + tag, {"avmap": mk, "N": K(4 if n == 1 or kind == "unbounded" else 2), "NMC": K(2)}, response_surfaces.av_design,
            {"avmap": MAP, "N": NINT, "NMC": NINT})
        # response surfaces
        def surf(mp, resp=None):
            return response_surfaces.ActiveSubspaceResponseSurface(mp, resp)

        def new(avmap, n=n):
            return [surf(avmap).avmap.domain.subspaces.W1]
        add("ActiveSubspaceResponseSurface" + tag, {"avmap": mk}, new, {"avmap": MAP})

        def td(map, X, f, n=n):
            s = surf(map, rs.PolynomialApproximation(N=1))
            s.train_with_data(X, f)
            return s.predict(X, True)
        add("train_with_data" + tag, dict(XF(8, m), map=mk), td, {"X": FLAT, "f": OUT})

        def trained(mk=mk, m=m):
            s = surf(mk(), rs.PolynomialApproximation(N=1))
            s.train_with_data(data.weyl(8, m), outs(data.weyl(8, m)))
            return s
        add("predict" + tag, {"s": trained, "X": lambda m=m: data.weyl(2, m)}, lambda s, X: s.predict(X, True), {"X": FLAT})
        add("gradient" + tag, {"s": trained, "X": lambda m=m: data.weyl(2, m)}, lambda s, X: s.gradient(X), {"X": FLAT})
        add("call" + tag, {"s": trained, "X": lambda m=m: data.weyl(2, m)}, lambda s, X: s(X), {"X": FLAT})
        add("predict_av" + tag, {"s": trained, "Y": lambda n=n: data.weyl(2, n)}, lambda s, Y: s.predict_av(Y, True), {"Y": FLAT})
        add("gradient_av" + tag, {"s": trained, "Y": lambda n=n: data.weyl(2, n)}, lambda s, Y: s.gradient_av(Y), {"Y": FLAT})

        def ti(map, fun, N, NMC):
            s = surf(map, rs.PolynomialApproximation(N=1))
            s.train_with_interface(fun, N, NMC)
            return [s.predict_av(np.zeros((1, map.domain.n)), True)]
        add("train_with_interface" + tag, {"map": mk, "fun": U, "N": K(4 if n == 1 or kind == "unbounded" else 2), "NMC": K(2)}, ti,
            {"fun": FUN, "N": NINT, "NMC": NINT})
        # minimizers
        dom = lambda mk=mk: mk().domain
        DOM = [("None", lambda v: None), ("number", lambda v: 3), ("lookalike", lambda v: Other(v)), ("subspaces", lambda v: v.subspaces)]
        add("av_minimize" + tag, {"avfun": U, "avdom": dom}, optimizers.av_minimize, {"avfun": FUN, "avdom": DOM})
        cls = optimizers.BoundedMinVariableMap if kind == "bounded" else optimizers.UnboundedMinVariableMap

        def mtrain(X, f, domain, cls=cls, n=n):
            mp = cls(domain)
            mp.train(X, f)
            return [mp.inverse(np.zeros((1, n)))]
        add("minimizing map train" + tag, dict(XF(10, m), domain=dom), mtrain, {"X": FLAT, "f": OUT})

        def minverse(map, Y, N):
            return map.inverse(Y, N)

        def mmap(dom=dom, cls=cls, m=m):
            mp = cls(dom())
            mp.train(data.weyl(12, m), outs(data.weyl(12, m)))
            return mp
        add("minimizing map inverse" + tag, {"map": mmap, "Y": lambda n=n: np.zeros((1, n)), "N": K(1)}, minverse,
            {"Y": FLAT, "N": [("2", lambda v: 2), ("0", lambda v: 0), ("-1", lambda v: -1), ("None", lambda v: None),
                              ("string", lambda v: "1"), ("1.5", lambda v: 1.5)]})

        def convex(mk=mk, m=m):
            s = surf(mk(), rs.PolynomialApproximation(N=2))
            s.train_with_data(data.weyl(25, m), np.sum(data.weyl(25, m) ** 2, axis=1).reshape(-1, 1))
            return s
        add("minimize" + tag, {"asrs": convex, "X": lambda m=m: data.weyl(25, m),
                               "f": lambda m=m: np.sum(data.weyl(25, m) ** 2, axis=1).reshape(-1, 1)}, optimizers.minimize,
            {"X": FLAT, "f": OUT})

    # -------------------------------------------------------------------------------------------- response surfaces
    for m, N in itertools.product((1, 2, 3), (1, 2)):
        need = {(1, 1): 2, (1, 2): 3, (2, 1): 3, (2, 2): 6, (3, 1): 4, (3, 2): 10}[m, N]

        def pt(X, f, N=N):
            p = rs.PolynomialApproximation(N=N)
            p.train(X, f)
            return p.predict(X, True)
        add("PolynomialApproximation {} of {}".format(N, m), XF(need + 1, m), pt, {"X": FLAT, "f": OUT}, )

        def ptf(X, f, N=N):
            p = rs.PolynomialApproximation(N=N)
            p.train(X[:len(f)], f[:len(X)])
            return [p.N]

        def rtf(X, f, N=N):
            p = rs.RadialBasisApproximation(N=N)
            p.train(X[:len(f)], f[:len(X)])
            return [p.N]
        less = [("too few: {}".format(k), lambda v, k=k: v[:k]) for k in range(1, need)]
        add("too few points for polynomials {} of {}".format(N, m), XF(need, m), ptf, {"X": less, "f": less})
        add("too few points for bases {} of {}".format(N, m), XF(need, m), rtf, {"X": less, "f": less})

        def rt(X, f, N=N):
            p = rs.RadialBasisApproximation(N=N)
            p.train(X, f)
            return [p.N]
        add("RadialBasisApproximation {} of {}".format(N, m), XF(need + 3, m), rt, {"X": FLAT, "f": OUT})
        for kind, c in (("polynomials", rs.PolynomialApproximation), ("bases", rs.RadialBasisApproximation)):
            def tr(c=c, N=N, m=m, need=need):
                p = c(N=N)
                p.train(data.weyl(need + 3, m), outs(data.weyl(need + 3, m)))
                return p
            for meth in ("predict", "gradient", "__call__"):
                add("{} {} {} of {}".format(meth, kind, N, m), {"p": tr, "X": lambda m=m: data.weyl(2, m)},
                    lambda p, X, meth=meth: getattr(p, meth)(X), {"X": FLAT})

    # ------------------------------------------------------------------------------------------------ utilities
    for m in (1, 2, 3):
        Xm = lambda m=m: data.weyl(3, m)
        add("process_inputs {}".format(m), {"X": Xm}, misc.process_inputs, {"X": FLAT + [("number", lambda v: np.array(1.0))]})
        add("process_inputs_outputs {}".format(m), XF(4, m), misc.process_inputs_outputs, {"X": FLAT + ROWS, "f": OUT})
        bn = lambda m=m: misc.BoundedNormalizer(-np.ones((m, 1)), 2 * np.ones((m, 1)))
        un = lambda m=m: misc.UnboundedNormalizer(np.zeros((m, 1)), 2 * np.eye(m))
        for nm, mk2 in (("bounded", bn), ("unbounded", un)):
            for meth in ("normalize", "unnormalize"):
                add("{} {} {}".format(meth, nm, m), {"o": mk2, "X": Xm}, lambda o, X, meth=meth: getattr(o, meth)(X), {"X": FLAT})
        add("UnboundedNormalizer {}".format(m), {"mu": lambda m=m: np.zeros((m, 1)), "C": lambda m=m: np.eye(m) * 2},
            lambda mu, C: [misc.UnboundedNormalizer(mu, C).mu],
            {"C": [("negative definite", lambda v: -v), ("zero", lambda v: 0 * v), ("one negative variance", lambda v: v - 3 * np.diag(np.eye(len(v))[0]))]})
    for run, wrap, fun in (("SimulationRunner", simrunners.SimulationRunner, quad), ("SimulationGradientRunner", simrunners.SimulationGradientRunner, dquad)):
        add(run, {"fun": lambda fun=fun: User(fun), "X": lambda: data.weyl(3, 2)}, lambda fun, X, wrap=wrap: [wrap(fun).run(X)], {"fun": FUN, "X": FLAT})
        add(run + " without inputs", {"fun": lambda fun=fun: User(fun)}, lambda fun, wrap=wrap: [1 if wrap(fun) else 0], {"fun": FUN})
    zneg = [("0", lambda v: 0), ("-1", lambda v: -1)]
    add("r_hermite", {"N": K(3)}, quadrature.r_hermite, {"N": NINT + zneg}, [{"N": K(2)}])
    add("r_jacobi", {"N": K(3), "l": K(-1), "r": K(1), "a": K(0), "b": K(0)}, quadrature.r_jacobi,
        {"N": NINT + zneg}, [{"N": K(1)}, {"N": K(2)}])
    add("jacobi_matrix", {"ab": lambda: np.array([[0.0, 1], [1, 4], [2, 9]])}, quadrature.jacobi_matrix,
        {"ab": FLAT + [("one column", lambda v: v[:, :1]), ("three columns", lambda v: np.hstack((v, v[:, :1])))]})
    add("g1d", {"N": K(3), "quadtype": K("Hermite")}, quadrature.g1d,
        {"quadtype": [("lower case", lambda v: "hermite"), ("other", lambda v: "Laguerre"), ("None", lambda v: None), ("empty", lambda v: "")]},
        [{"quadtype": K("Legendre")}])
    for q in ("gauss_hermite", "gauss_legendre"):
        add(q, {"N": K([3, 2])}, getattr(quadrature, q), {"N": [("tuple", lambda v: tuple(v)), ("array", lambda v: np.array(v)),
                                                                  ("float", lambda v: 3.0), ("None", lambda v: None), ("string", lambda v: "3")]},
            [{"N": K(3)}, {"N": K([3])}, {"N": K([2, 2, 2])}])
    # ----------------------------------------------------------------------------------------------- larger arguments
    for M, m in ((101, 2), (257, 4), (1031, 3)):
        tag = " of {}".format(M)
        add("process_inputs" + tag, {"X": lambda M=M, m=m: data.weyl(M, m)}, misc.process_inputs, {"X": FLAT})
        add("process_inputs_outputs large" + tag, XF(M, m), lambda X, f: misc.process_inputs_outputs(X, f),
            {"X": FLAT + ROWS[:1], "f": FLAT + COLS + ROWS[1:] + [("half", lambda v: v[::2]), ("one row", lambda v: v[:1])]})
        for t in ("OLS", "QPHD"):
            add("compute {}{}".format(t, tag), dict(XF(M, m), sstype=K(t), ptype=K("EVG")), comp,
                {"X": FLAT + missing, "f": OUT + missing, "sstype": stype, "ptype": ptypes + needboot})
        add("compute AS" + tag, {"df": lambda M=M, m=m: data.weyl(M, m), "sstype": K("AS"), "ptype": K("EVG")}, comp,
            {"df": FLAT + missing, "sstype": stype, "ptype": ptypes + needboot})
        add("surface train" + tag, dict(XF(M, 3), map=lambda: amap("unbounded", 3, 2)), td, {"X": FLAT, "f": OUT})
        for run, wrap, fun in (("SimulationRunner", simrunners.SimulationRunner, quad), ("SimulationGradientRunner", simrunners.SimulationGradientRunner, dquad)):
            add(run + tag, {"fun": lambda fun=fun: User(fun), "X": lambda M=M, m=m: data.weyl(M, m)}, lambda fun, X, wrap=wrap: [wrap(fun).run(X)],
                {"fun": FUN, "X": FLAT})
        add("finite differences" + tag, {"X": lambda M=M, m=m: data.weyl(M, m), "fun": lambda: User()}, gradients.finite_difference_gradients,
            {"X": FLAT, "fun": FUN})

        def pl(X, f):
            p = rs.PolynomialApproximation(N=2)
            p.train(X, f)
            return p.predict(X[:5], True)
        add("polynomials train" + tag, XF(M, m), pl, {"X": FLAT, "f": OUT})
        if M < 1000:
            add("gradients" + tag, dict(XF(M, m), p=K(m + 2)), gradients.local_linear_gradients,
                {"X": FLAT, "p": [("m", lambda v, m=m: m), ("M+1", lambda v, M=M: M + 1), ("2M", lambda v, M=M: 2 * M), ("float", float)]},
                [{"p": K(M)}, {"p": K(m + 1)}])
    for m in (5, 8, 12, 20):
        add("partition of {}".format(m), {"s": lambda m=m: make_subspaces(data.ortho(m, 0.3)), "n": K(1)}, part,
            {"n": NINT + [("0", lambda v: 0), ("-1", lambda v: -1), ("m+1", lambda v, m=m: m + 1), ("-m", lambda v, m=m: -m),
                          ("1-m", lambda v, m=m: 1 - m), ("m+2", lambda v, m=m: m + 2), ("1000", lambda v: 1000)]},
            [{"n": K(k)} for k in range(1, m + 1)])
        if m < 20:
            need = (m + 1) * (m + 2) // 2
            few_ = [("{}".format(k), lambda v, k=k: v[:k]) for k in sorted({need - 1, need - 2, need // 2, m + 1, 2})]
            add("QPHD of too few, {}".format(m), XF(need, m), few("QPHD", need), {"X": few_, "f": few_})
            less = [("too few: {}".format(k), lambda v, k=k: v[:k]) for k in sorted({need - 1, need - 2, need // 2, m + 1, 2})]

            def ptl(X, f):
                p = rs.PolynomialApproximation(N=2)
                p.train(X[:len(f)], f[:len(X)])
                return [p.N]

            def rtl(X, f):
                p = rs.RadialBasisApproximation(N=2)
                p.train(X[:len(f)], f[:len(X)])
                return [p.N]
            add("too few points for polynomials of {}".format(m), XF(need, m), ptl, {"X": less, "f": less})
            add("too few points for bases of {}".format(m), XF(need, m), rtl, {"X": less, "f": less})
    for N in (11, 30, 101):
        mk = lambda: amap("unbounded", 3, 1)
        tag = " with {}".format(N)
        add("integrate" + tag, {"fun": lambda: User(), "avmap": mk, "N": K(N), "NMC": K(N)}, lambda **a: list(integrals.integrate(**a)),
            {"fun": FUN, "avmap": MAP, "N": NINT, "NMC": NINT})
        add("av_integrate" + tag, {"avfun": lambda: User(), "avmap": mk, "N": K(N)}, lambda **a: [integrals.av_integrate(**a)],
            {"avfun": FUN, "avmap": MAP, "N": NINT})
        add("quadrature_rule" + tag, {"avmap": mk, "N": K(N), "NMC": K(N)}, integrals.quadrature_rule, {"avmap": MAP, "N": NINT, "NMC": NINT})
        add("av_design" + tag, {"avmap": mk, "N": K(N), "NMC": K(N)}, response_surfaces.av_design, {"avmap": MAP, "N": NINT, "NMC": NINT})
        add("train_with_interface" + tag, {"map": mk, "fun": lambda: User(), "N": K(N), "NMC": K(N)}, ti, {"fun": FUN, "N": NINT, "NMC": NINT})
        add("r_hermite" + tag, {"N": K(N)}, quadrature.r_hermite, {"N": NINT})
        for q in ("gauss_hermite", "gauss_legendre"):
            add(q + tag, {"N": K([N])}, getattr(quadrature, q), {"N": [("tuple", tuple), ("array", np.array), ("float", lambda v: float(v[0])),
                                                                       ("None", lambda v: None), ("string", lambda v: "3")]})
    # --------------------------------------------------------------------------------------------------- plots
    def close_all(fn):
        def run(**a):
            import matplotlib.pyplot as plt
            plt.close("all")
            try:
                fn(**a)
                return [len(plt.get_fignums())]
            finally:
                plt.close("all")
        return run
    add("plot of eigenvectors", {"W": lambda: data.ortho(4, 0.3)[:, :2], "W_br": lambda: np.tile(data.ortho(4, 0.3)[:, :1], (1, 4))},
        close_all(plotters.eigenvectors), {"W_br": [("too few columns", lambda v: v[:, :3]), ("too many columns", lambda v: np.hstack((v, v))),
                                                    ("half", lambda v: v[:, :2])]})
    add("summary plot", {"y": lambda: data.weyl(5, 2), "f": lambda: np.ones((5, 1))}, close_all(plotters.sufficient_summary),
        {"y": [("three columns", lambda v: np.hstack((v, v[:, :1]))), ("four columns", lambda v: np.hstack((v, v)))]}, [{"y": lambda: data.weyl(5, 1)}])
    add("zonotope plot", {"vertices": lambda: np.array([[0.0, 0], [1, 0], [0, 1]]), "design": lambda: data.weyl(3, 2), "y": lambda: data.weyl(4, 2),
                          "f": lambda: np.ones((4, 1))}, close_all(plotters.zonotope_2d_plot),
        {"vertices": [("one column", lambda v: v[:, :1]), ("three columns", lambda v: np.hstack((v, v[:, :1])))],
         "design": [("one column", lambda v: v[:, :1]), ("three columns", lambda v: np.hstack((v, v[:, :1])))],
         "y": [("missing", lambda v: None), ("one column", lambda v: v[:, :1]), ("three columns", lambda v: np.hstack((v, v[:, :1]))),
               ("one row less", lambda v: v[:-1])],
         "f": [("missing", lambda v: None), ("one row less", lambda v: v[:-1])]})
    return E


EXEMPT = {("zonotope plot", ("y missing", "f missing")), ("zonotope plot", ("f one row less", "y one row less")),
          ("process_inputs_outputs", ("X one row less", "f one row less")), ("process_inputs_outputs", ("X one row more", "f one row more"))}


def exempt(name, combo):
    """Two violations that make a valid call again."""
    labels = tuple(sorted("{} {}".format(k, b[0]) for k, b in combo))
    base = name.rsplit(" ", 1)[0] if name.startswith("process_inputs_outputs") else name
    return any(base == e and labels == tuple(sorted(ls)) for e, ls in EXEMPT)


def build(e, change=()):
    """Arguments, with the violations in `change`."""
    a = {k: f() for k, f in e.base.items()}
    for k, b in change:
        a[k] = b[1](a[k])
    return a


def run(e, a):
    np.random.seed(12)
    return [np.array(v) for v in flat(e.call(**a))]


def equal(r, ref, what):
    fail(len(r) != len(ref), "{}: {} results instead of {}", what, len(r), len(ref))
    for u, v in zip(r, ref):
        if u.shape != v.shape or not np.array_equal(u, v):
            close(u, v, 1e-7, what=what)


def refuse(ctx, e, a, what):
    before = {k: snapshot(v) for k, v in a.items()}
    User.calls = 0
    np.random.seed(12)
    try:
        r = e.call(**a)
    except Exception as ex:
        fail(User.calls != 0, "{}: {} simulations were run before it was refused", what, User.calls)
        ctx.state(e.name, what, type(ex).__name__)
    else:
        fail(True, "{}: accepted, returned {}", what, r)
    for k, v in a.items():
        fail(snapshot(v) != before[k], "{}: changed {}", what, k)


def entry(ctx, names, depth):
    for e in entries():
        if e.name not in names:
            continue
        ref = None
        with ctx.case({"entry": e.name, "arguments": "valid"}):
            ref = run(e, build(e))
        if ref is None:
            continue
        for change in e.good:
            with ctx.case({"entry": e.name, "arguments": {k: f() for k, f in change.items()}}):
                a = build(e)
                a.update({k: f() for k, f in change.items()})
                run(e, a)
                ctx.count("accepted")
        alts = [[None] + [(k, b) for b in bs] for k, bs in sorted(e.bad.items())]
        for combo in itertools.product(*alts):
            combo = [c for c in combo if c is not None]
            if not combo or len(combo) > depth or exempt(e.name, combo):
                continue
            if len(combo) > 1 and any("letter" in b[0] for k, b in combo):
                continue                                   # misspelled names only by themselves
            what = ", ".join("{} {}".format(k, b[0]) for k, b in combo)
            with ctx.case({"entry": e.name, "violated": what}):
                refuse(ctx, e, build(e, combo), what)
                ctx.count("refusals")
                if len(combo) == 1:
                    # a refused call between valid ones of the same objects
                    a = build(e)
                    bad = dict(a)
                    for k, b in combo:
                        bad[k] = b[1](a[k])
                    refuse(ctx, e, bad, what + " (first)")
                    equal(run(e, a), ref, "valid call after the refusal")
                    refuse(ctx, e, bad, what + " (again)")
                    equal(run(e, a), ref, "valid call after two refusals")
                    ctx.count("transitions", 4)


def jobs(tier):
    names = [e.name for e in entries()]
    assert len(names) == len(set(names)), "names of entries"
    big = tier == "thorough"
    k = 10
    return [Job("entries {}".format(i), entry, names[i::k], 4 if big else 2) for i in range(k)]
