"""C23: a failing simulation or training leaves earlier results usable."""
import itertools

import numpy as np

import data
from core import Job, close, fail, raises, same
from ops import amap, dquad, flat, outs, quad
from sut import (domains, gradients, integrals, make_subspaces, optimizers, response_surfaces, rs, seeded, simrunners, subspaces)

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive fault injection: every call of the user's function fails in turn, alone and in pairs of attempts"
RULE = ("every operation that calls the user x every position of the failing call x kinds of exceptions (ordinary, "
        "StopIteration, arithmetic, outside the Exception hierarchy) x what was trained before; every order of a fault, a second "
        "fault and a success; every kind of refused training; behaviour of all objects before and after")
ASSUMPTIONS = ["the user's function fails only by raising"]


class Sim(RuntimeError):
    pass


class Hard(BaseException):
    pass


EXCS = [Sim, Hard, StopIteration, ZeroDivisionError, KeyError, TypeError, np.linalg.LinAlgError]
# kinds that code is apt to single out (retries, fallbacks, clean-up), each at the first, a middle and the last call
KINDS = [Exception, ValueError, IOError, RuntimeError, IndexError, AttributeError, FloatingPointError, OverflowError,
         NotImplementedError, AssertionError, MemoryError, EOFError, ImportError, UnicodeError, TimeoutError, RuntimeWarning,
         KeyboardInterrupt, SystemExit, GeneratorExit] + EXCS


class User(object):
    """The user's function; call number `k` raises `exc`."""

    def __init__(self, fun, k=None, exc=None):
        self.fun, self.k, self.exc, self.calls, self.raised, self.args = fun, k, exc, 0, None, []

    def __call__(self, x):
        self.calls += 1
        self.args.append(np.array(x))
        if self.k == self.calls or (self.raised is not None):
            self.raised = self.exc("simulation failed")
            raise self.raised
        return self.fun(x)


def equal(r, ref, what, tol=1e-9):
    r, ref = flat(r), flat(ref)
    fail(len(r) != len(ref), "{}: {} results instead of {}", what, len(r), len(ref))
    for u, v in zip(r, ref):
        if u.shape != v.shape or not np.array_equal(u, v):
            close(u, v, tol, what=what)


def copy(r):
    return [np.array(v) for v in flat(r)]


class Target(object):
    """objects(): everything involved;  run(objects, user): the operation;  probe(objects): observable behaviour."""

    def __init__(self, name, objects, run, probe, fun=quad, tol=1e-9):
        self.name, self.objects, self.run, self.probe, self.fun = name, objects, run, probe, fun
        self.tol = tol                   # of results of the same training (searches for parameters amplify rounding)


def probe_map(o):
    mp = o["map"]
    m, n = mp.domain.subspaces.W1.shape
    np.random.seed(9)
    d = mp.domain
    return [mp.forward(data.weyl(3, m)), mp.inverse(np.zeros((2, n)), 2), d.vertY, d.vertX, d.subspaces.eigenvals,
            d.subspaces.eigenvecs, d.subspaces.W1, d.subspaces.W2]


def probe_surface(o):
    s = o["surface"]
    m, n = o["map"].domain.subspaces.W1.shape
    out = probe_map(o)
    if o["trained"]:
        out += [s.predict(data.weyl(3, m), True), s.gradient_av(data.weyl(2, n)), s(data.weyl(2, m, 3.0))]
    return out


def targets(tier):
    out = []
    X = np.round(4 * data.weyl(3, 2))
    for runner in (False, True):
        wrap = (lambda u: simrunners.SimulationRunner(u)) if runner else (lambda u: u)
        tag = " of a runner" if runner else ""
        if runner:
            out.append(Target("SimulationRunner", lambda: {"X": X.copy()}, lambda o, u: simrunners.SimulationRunner(u).run(o["X"]),
                              lambda o: [o["X"]]))
        out.append(Target("finite differences" + tag, lambda: {"X": X.copy()},
                          lambda o, u, w=wrap: gradients.finite_difference_gradients(o["X"], w(u)), lambda o: [o["X"]]))
        for kind, m, n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 1), ("unbounded", 3, 2)):
            def maps(kind=kind, m=m, n=n):
                return {"map": amap(kind, m, n)}
            out.append(Target("integrate {} {}{}".format(kind, n, tag), maps,
                              lambda o, u, w=wrap: np.array(integrals.integrate(w(u), o["map"], 4, NMC=2)), probe_map))
            if not runner:
                out.append(Target("av_integrate {} {}".format(kind, n), maps,
                                  lambda o, u: np.array(integrals.av_integrate(u, o["map"], 4)), probe_map))
            for resp, before in itertools.product((1, 2, "rbf", None), (False, True)):
                if runner and resp in (2, "rbf"):
                    continue
                if resp == 2 and n == 2 and kind == "bounded":
                    continue

                def objs(kind=kind, m=m, n=n, resp=resp, before=before):
                    mp = amap(kind, m, n)
                    r = {None: lambda: None, "rbf": lambda: rs.RadialBasisApproximation(N=1)}.get(
                        resp, lambda: rs.PolynomialApproximation(N=resp))()
                    s = response_surfaces.ActiveSubspaceResponseSurface(mp, r)
                    if before:
                        x = data.weyl(25, m, 6.0)
                        s.train_with_data(x, -outs(x) + 3)
                    return {"map": mp, "surface": s, "trained": before}

                def train(o, u, w=wrap, kind=kind, n=n, resp=resp):
                    N = 9 if n == 2 and kind == "unbounded" else 6 if resp in (2, None) else 4
                    if kind == "bounded" and n == 2:
                        N = 2
                    o["surface"].train_with_interface(w(u), N, NMC=2)
                    s = o["surface"]
                    m = o["map"].domain.m
                    return [s.predict(data.weyl(3, m), True), s.predict_av(data.weyl(2, n), True)]
                out.append(Target("interface {} {} {} {}{}".format(kind, n, resp, "again" if before else "first", tag), objs, train,
                                  probe_surface, tol=0.05 if resp in (None, "rbf") else 1e-9))
    out.append(Target("SimulationGradientRunner", lambda: {"X": X.copy()},
                      lambda o, u: simrunners.SimulationGradientRunner(u).run(o["X"]), lambda o: [o["X"]], dquad))
    for kind, m, n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 1), ("unbounded", 3, 2)):
        def maps(kind=kind, m=m, n=n):
            return {"map": amap(kind, m, n)}
        out.append(Target("av_minimize {} {}".format(kind, n), maps, lambda o, u: optimizers.av_minimize(u, o["map"].domain), probe_map))
        if n > 1 or kind == "unbounded":
            out.append(Target("gradient in av_minimize {} {}".format(kind, n), maps,
                              lambda o, u: optimizers.av_minimize(quad, o["map"].domain, lambda y: u(y).ravel()), probe_map, dquad))
    return out


def positions(total, most):
    if total <= most:
        return range(1, total + 1)
    half = most // 2
    mid = np.linspace(half + 1, total - half // 2, most - half - half // 2).astype(int)
    return sorted(set(list(range(1, half + 1)) + mid.tolist() + list(range(total - half // 2 + 1, total + 1))))


def attempt(t, o, u):
    """The operation from a fixed state of the generator."""
    np.random.seed(31)
    return t.run(o, u)


def single(ctx, t, most, excs):
    ok = User(t.fun)
    o = t.objects()
    before = copy(t.probe(o))
    ref = copy(attempt(t, o, ok))
    after = copy(t.probe(dict(o, trained=True))) if "trained" in o else copy(t.probe(o))
    total = ok.calls
    ctx.sample({"operation": t.name, "calls of the user": total})
    few = {1, (total + 1) // 2, total}
    for k in positions(total, most):
        for exc in excs + [x for x in KINDS if k in few and x not in excs]:
            with ctx.case({"operation": t.name, "failing call": k, "of": total, "exception": exc.__name__}):
                o = t.objects()
                if t.tol > 1e-9:
                    before = copy(t.probe(o))
                u = User(t.fun, k, exc)
                try:
                    attempt(t, o, u)
                except BaseException as e:
                    if e is not u.raised:
                        fail(u.raised is None, "raised {} though the simulation did not fail", repr(e))
                        fail(True, "the caller saw {} instead of the exception of the simulation", repr(e))
                else:
                    fail(True, "the exception of the simulation did not reach the caller")
                fail(u.calls != k, "{} simulations were run although number {} failed", u.calls, k)
                for i, (x, y) in enumerate(zip(u.args, ok.args)):
                    close(x, y, 1e-9, what="argument of call {}".format(i + 1))
                equal(t.probe(o), before, "behaviour after the failure")
                r = attempt(t, o, User(t.fun))
                equal(r, ref, "repeated without the fault", t.tol)
                if "trained" in o:
                    equal(t.probe(dict(o, trained=True)), after, "behaviour after the repetition", t.tol)
                ctx.state(t.name, k, exc.__name__)
                ctx.count("faults")
                ctx.count("transitions", 2)


def sequences(ctx, t, points):
    """Failures and successes in every order of three attempts."""
    ok = User(t.fun)
    o = t.objects()
    if "trained" in o:
        o["trained"] = False
    before = copy(t.probe(o))
    ref = copy(attempt(t, o, ok))
    total = ok.calls
    ks = sorted(set([1, total] + [1 + (total - 1) * i // points for i in range(points)]))
    for seq in itertools.product([None] + ks, repeat=3):
        with ctx.case({"operation": t.name, "attempts": [("call {} fails".format(k) if k else "succeeds") for k in seq]}):
            o = t.objects()
            if "trained" in o:
                o["trained"] = False
            last = None
            for k in seq:
                u = User(t.fun, k, Sim)
                try:
                    r = attempt(t, o, u)
                except Sim as e:
                    fail(e is not u.raised or k is None, "another exception: {}", repr(e))
                    fail(u.calls != k, "{} simulations were run although number {} failed", u.calls, k)
                    ctx.count("faults")
                else:
                    fail(k is not None, "the exception did not reach the caller")
                    equal(r, ref, "attempt after {}".format(seq), t.tol)
                    last = copy(t.probe(dict(o, trained=True))) if "trained" in o else None
                if "trained" in o and last is not None:
                    equal(t.probe(dict(o, trained=True)), last, "behaviour after {}".format(seq))
                elif "trained" in o:
                    equal(t.probe(dict(o, trained=False)), before, "behaviour after {}".format(seq))
                ctx.count("transitions")
            ctx.state(t.name, seq)


def refused(ctx):
    """Trainings and computations that are refused leave the object as it was."""
    x0, f0 = data.weyl(25, 2, 6.0), outs(data.weyl(25, 2, 6.0))
    x, f = 0.5 * x0[::-1] + 0.25, 2 * f0 - 1       # the refused data differ from those trained before
    Y = data.weyl(3, 2, 1.0)
    bad = [("too few points", lambda p: p.train(x[:2], f[:2])), ("different numbers", lambda p: p.train(x, f[:-1])),
           ("flat outputs", lambda p: p.train(x, f.ravel())), ("flat inputs", lambda p: p.train(x.ravel(), f)),
           ("two outputs", lambda p: p.train(x, np.hstack((f, f))))]
    extra = {"poly": [("weights of another length", lambda p: p.train(x, f, np.ones((7, 1))))],
             "rbf": [("errors of another length", lambda p: p.train(x, f, v=np.ones((7, 1)))),
                     ("eigenvalues of another length", lambda p: p.train(x, f, e=np.array([[1.0]]), v=np.ones((7, 1)))),
                     ("too many errors", lambda p: p.train(x, f, v=np.ones((50, 1)))),
                     ("no output", lambda p: p.train(x, None))]}
    for kind, N in itertools.product(("poly", "rbf"), (1, 2)):
        cls = rs.PolynomialApproximation if kind == "poly" else rs.RadialBasisApproximation
        for seq in itertools.product(bad + extra[kind], repeat=2):
            with ctx.case({"surface": kind, "degree": N, "refused": [s[0] for s in seq]}):
                p = cls(N=N)
                p.train(x0, f0)
                before = copy([p.predict(Y, True), p.gradient(Y)] + ([p.g, p.H if N > 1 else None] if kind == "poly" else []))
                for name, call in seq:
                    raises(lambda: call(p), name)
                    equal([p.predict(Y, True), p.gradient(Y)] + ([p.g, p.H if N > 1 else None] if kind == "poly" else []), before,
                          "surface after {}".format(name))
                p.train(-x, f + 1)
                q = cls(N=N)
                q.train(-x, f + 1)
                equal(p.predict(Y, True), q.predict(Y, True), "trained again after refusals")
                ctx.state(kind, N, [s[0] for s in seq])
                ctx.count("transitions", 3)
    X0, F0 = data.weyl(25, 3), outs(data.weyl(25, 3))
    X, F = 0.5 * X0[::-1] + 0.25, 2 * F0 - 1
    for kind, n in itertools.product(("bounded", "unbounded"), (1, 2)):
        badm = [("too few points", lambda mp: mp.train(X[:3], F[:3])), ("different numbers", lambda mp: mp.train(X, F[:-2])),
                ("flat", lambda mp: mp.train(X.ravel(), F)), ("two outputs", lambda mp: mp.train(X, np.hstack((F, F)))),
                ("two points asked", lambda mp: mp.inverse(np.zeros((1, n)), 2))]
        for seq in itertools.product(badm, repeat=2):
            with ctx.case({"minimizing map": kind, "n": n, "refused": [s[0] for s in seq]}):
                cls = optimizers.BoundedMinVariableMap if kind == "bounded" else optimizers.UnboundedMinVariableMap
                mp = cls(amap(kind, 3, n).domain)
                mp.train(X0, F0)
                before = copy(mp.inverse(np.zeros((2, n))))
                for name, call in seq:
                    raises(lambda: call(mp), name)
                    equal(mp.inverse(np.zeros((2, n))), before, "map after {}".format(name))
                ctx.state(kind, n, [s[0] for s in seq])
                ctx.count("transitions", 2)
        bads = [("too few points", lambda s: s.train_with_data(X[:1], F[:1])), ("different numbers", lambda s: s.train_with_data(X, F[:-2])),
                ("flat", lambda s: s.train_with_data(X.ravel(), F)), ("two outputs", lambda s: s.train_with_data(X, np.hstack((F, F)))),
                ("no number", lambda s: s.train_with_interface(quad, 3.5)), ("no function", lambda s: s.train_with_interface(3, 5))]
        for resp, seq in itertools.product((None, 2), itertools.product(bads, repeat=2)):
            with ctx.case({"active surface": kind, "n": n, "surface": resp, "refused": [s[0] for s in seq]}):
                s = response_surfaces.ActiveSubspaceResponseSurface(amap(kind, 3, n), None if resp is None else rs.PolynomialApproximation(N=2))
                s.train_with_data(X0, F0)
                before = copy([s.predict(X[:3], True), s.gradient(X[:2])])
                for name, call in seq:
                    raises(lambda: call(s), name)
                    equal([s.predict(X[:3], True), s.gradient(X[:2])], before, "surface after {}".format(name))
                ctx.state(kind, n, resp, [s[0] for s in seq])
                ctx.count("transitions", 2)


def subspace_refusals(ctx):
    """compute that fails leaves the subspaces, and every object built on them, as they were."""
    df, X, f = data.weyl(9, 3), data.weyl(25, 3), outs(data.weyl(25, 3))
    bad = [("no data", lambda s: s.compute()), ("no gradients", lambda s: s.compute(X=X, f=f)),
           ("unknown type", lambda s: s.compute(X=X, f=f, sstype="XX")), ("no outputs", lambda s: s.compute(X=X, sstype="OLS")),
           ("unknown partition", lambda s: s.compute(df=-2 * df[::-1] ** 2, ptype="ZZ")),
           ("partition without bootstrap", lambda s: s.compute(df=-2 * df[::-1] ** 2, ptype="RS")),
           ("too few", lambda s: s.compute(X=X[:4], f=f[:4], sstype="QPHD")),
           ("too few for neighbors", lambda s: s.compute(X=X[:3], f=f[:3], sstype="OPG")),
           ("outputs", lambda s: s.compute(X=X, f=np.hstack((f, f)), sstype="OLS")),
           ("partition 0", lambda s: s.partition(0)), ("partition 4", lambda s: s.partition(4)), ("partition 1.0", lambda s: s.partition(1.0))]
    for kind, n in itertools.product(("bounded", "unbounded"), (1, 2)):
        for seq in itertools.product(bad, repeat=2):
            with ctx.case({"map": kind, "n": n, "refused": [b[0] for b in seq]}):
                mp = amap(kind, 3, n)
                s = mp.domain.subspaces
                before = copy(probe_map({"map": mp}) + [s.e_br, s.sub_br])
                for name, call in seq:
                    raises(lambda: call(s), name)
                    equal(probe_map({"map": mp}) + [s.e_br, s.sub_br], before, "after {}".format(name))
                ctx.state(kind, n, [b[0] for b in seq])
                ctx.count("transitions", 2)


def crowds():
    """Operations with many simulations."""
    for M in (11, 60, 129, 257, 600, 1031):
        X = np.round(40 * data.weyl(M, 3))
        for runner in (False, True):
            if runner:
                yield Target("SimulationRunner of {}".format(M), lambda X=X: {"X": X.copy()},
                             lambda o, u: simrunners.SimulationRunner(u).run(o["X"]), lambda o: [o["X"]])
            yield Target("finite differences of {} {}".format(M, runner), lambda X=X: {"X": X.copy()},
                         lambda o, u, r=runner: gradients.finite_difference_gradients(o["X"], simrunners.SimulationRunner(u) if r else u),
                         lambda o: [o["X"]])
        yield Target("SimulationGradientRunner of {}".format(M), lambda X=X: {"X": X.copy()},
                     lambda o, u: simrunners.SimulationGradientRunner(u).run(o["X"]), lambda o: [o["X"]], dquad)
    for kind, m, n, N, NMC in (("bounded", 3, 1, 11, 25), ("unbounded", 3, 1, 30, 20), ("unbounded", 3, 2, 101, 6), ("bounded", 3, 1, 60, 1),
                               ("unbounded", 4, 1, 12, 101)):
        def maps(kind=kind, m=m, n=n):
            return {"map": amap(kind, m, n)}
        yield Target("integrate {} {} {} {}".format(kind, n, N, NMC), maps,
                     lambda o, u, N=N, NMC=NMC: np.array(integrals.integrate(u, o["map"], N, NMC=NMC)), probe_map)
        yield Target("av_integrate {} {} {}".format(kind, n, N), maps,
                     lambda o, u, N=N: np.array(integrals.av_integrate(u, o["map"], N)), probe_map)
        for before in (False, True):
            def objs(kind=kind, m=m, n=n, before=before):
                mp = amap(kind, m, n)
                s = response_surfaces.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
                if before:
                    x = data.weyl(25, m, 6.0)
                    s.train_with_data(x, -outs(x) + 3)
                return {"map": mp, "surface": s, "trained": before}

            def train(o, u, N=N, NMC=NMC, n=n):
                o["surface"].train_with_interface(u, N, NMC=NMC)
                return [o["surface"].predict(data.weyl(3, o["map"].domain.m), True), o["surface"].predict_av(data.weyl(2, n), True)]
            yield Target("interface {} {} {} {} {}".format(kind, n, N, NMC, before), objs, train, probe_surface)


def jobs(tier):
    big = tier == "thorough"
    J = [Job("refused", refused), Job("refused subspaces", subspace_refusals)]
    for t in crowds():
        J.append(Job(t.name, single, t, 9, EXCS[:1]))
    for t in targets(tier):
        J.append(Job(t.name, single, t, 100000 if big else 36, EXCS if big else EXCS[:3]))
        if not t.name.endswith("again") or big:
            J.append(Job("sequences " + t.name, sequences, t, 4 if big else 2))
    return J
