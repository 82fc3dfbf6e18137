"""C22: operations leave their arguments alone and depend on values only."""
import itertools

import numpy as np

import data
import history
from core import Job, close, fail, same
from ops import LARGE, OPS, C, I, amap, flat, outs, quad
from sut import domains, make_subspaces, misc, optimizers, response_surfaces, rs, seeded, simrunners, snapshot, subspaces

LEVEL = "model_checking"
RULE = ("every public operation of a catalogue x every array argument alone and all together x memory layouts (Fortran order, "
        "strided, negative strides, part of a wider array), read-only flags and integer types for integer values; state of all "
        "arguments and objects before and after; memory shared between the results of two calls; later calls after the results "
        "of earlier ones were overwritten")
ASSUMPTIONS = ["results in another layout are compared to the accuracy of the operation (iterative solvers amplify rounding)"]


def layouts(a):
    for name, v in data.relayouts(a):
        yield name, v
    if a.size and np.all(a == np.round(a)) and np.max(np.abs(a)) < 1000:
        yield "int64", a.astype(np.int64)
        yield "int32", a.astype(np.int32)


def go(op, a, o):
    np.random.seed(20)
    return flat(op.run(a, o))


def equal(r, ref, tol, what):
    fail(len(r) != len(ref), "{}: {} results instead of {}", what, len(r), len(ref))
    for u, v in zip(r, ref):
        if u.shape != v.shape or not np.array_equal(u, v):
            close(u, v, tol, what=what)


def build(op):
    a = op.arrays()
    return a, (op.objs(a) if op.objs else None)


def unchanged(before, now, what):
    for k in before:
        fail(before[k] != now[k], "{}: argument {} changed", what, k)


def variants(ctx, op):
    a0, o0 = build(op)
    names = sorted(a0)
    before, ob = {k: snapshot(np.asarray(v)) for k, v in a0.items()}, snapshot(o0)
    ref = [np.array(v) for v in go(op, a0, o0)]
    with ctx.case({"operation": op.name, "layout": "none"}):
        unchanged(before, {k: snapshot(np.asarray(v)) for k, v in a0.items()}, "values")
        fail(snapshot(o0) != ob, "an object passed in changed")
    cases = []
    for k in names:
        for lname, v in layouts(a0[k]):
            cases.append(({k: lname}, {k: lname}))
    for lname in ("fortran", "strided", "negative strides", "columns of a wider array", "read-only", "int64", "int32"):
        cases.append(({"all": lname}, {k: lname for k in names}))
    for label, chosen in cases:
        with ctx.case({"operation": op.name, "layout": label}):
            a, o = build(op)
            used = 0
            for k, lname in chosen.items():
                v = dict(layouts(a[k])).get(lname)
                if v is not None:
                    a[k] = v
                    used += 1
            if not used and names:
                continue
            before = {k: snapshot(np.asarray(v)) for k, v in a.items()}
            flags = {k: (v.flags.writeable, v.strides, v.dtype) for k, v in a.items()}
            ob = snapshot(o)
            r = go(op, a, o)
            equal(r, ref, op.tol, "result")
            unchanged(before, {k: snapshot(np.asarray(v)) for k, v in a.items()}, "values")
            unchanged(flags, {k: (v.flags.writeable, v.strides, v.dtype) for k, v in a.items()}, "layout")
            fail(snapshot(o) != ob, "an object passed in changed")
            ctx.state(op.name, label, *r)
            ctx.count("transitions")


def aliases(ctx, op):
    with ctx.case({"operation": op.name, "calls": "two"}):
        a, o = build(op)
        r1 = go(op, a, o)
        keep = [np.array(v) for v in r1]
        r2 = go(op, a, o)
        for i, u in enumerate(r1):
            fail(not np.array_equal(u, keep[i], equal_nan=True) if u.dtype.kind == "f" else not np.array_equal(u, keep[i]),
                 "a second call changed result {} of the first", i)
            for j, v in enumerate(r2):
                fail(u.size and v.size and np.shares_memory(u, v), "results {} and {} of two calls share memory", i, j)
        equal(r2, keep, op.tol, "second call")
        for u in r1 + r2:
            if isinstance(u, np.ndarray) and u.flags.writeable and u.size:
                u[...] = 7
        a, _ = build(op)
        r3 = go(op, a, o)
        equal(r3, keep, op.tol, "call with the same objects after earlier results were overwritten")
        a, o = build(op)
        r4 = go(op, a, o)
        equal(r4, keep, op.tol, "call with new objects after earlier results were overwritten")
        ctx.state(op.name)
        ctx.count("transitions", 4)


def larger(ctx, ops):
    for op in ops:
        if op.arrays():
            variants(ctx, op)
        aliases(ctx, op)


def trained():
    """(name, object, queries): objects that are computed once and asked many times."""
    X, Y = data.weyl(26, 3), data.weyl(5, 2, 2.0)
    for N in (1, 2, 3):
        def mk(N=N):
            p = rs.PolynomialApproximation(N=N)
            p.train(data.weyl(26, 2), outs(data.weyl(26, 2)))
            return p
        yield "PolynomialApproximation {}".format(N), mk, [lambda p: p.predict(Y, True), lambda p: p.gradient(Y), lambda p: p(Y[:1]),
                                                          lambda p: p.predict(Y[:2])]
    for N in (0, 1, 2):
        def mk(N=N):
            p = rs.RadialBasisApproximation(N=N)
            p.train(data.weyl(12, 2), outs(data.weyl(12, 2)))
            return p
        yield "RadialBasisApproximation {}".format(N), mk, [lambda p: p.predict(Y, True), lambda p: p.gradient(Y), lambda p: p(Y[:1]),
                                                           lambda p: p.predict(Y[:2])]
    for kind, m, n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 2)):
        yield "map {} {}".format(kind, n), (lambda k=kind, m=m, n=n: amap(k, m, n)), [
            lambda p: p.forward(X), lambda p, n=n: p.inverse(np.zeros((2, n)), 3), lambda p: p.forward(X[:1])]

        def surf(k=kind, m=m, n=n):
            s = response_surfaces.ActiveSubspaceResponseSurface(amap(k, m, n), rs.PolynomialApproximation(N=2))
            s.train_with_data(X, outs(X))
            return s
        yield "surface {} {}".format(kind, n), surf, [lambda p: p.predict(X, True), lambda p: p.gradient(X), lambda p: p(X),
                                                      lambda p, n=n: p.predict_av(np.zeros((2, n)), True)]
    yield "bounded normalizer", lambda: misc.BoundedNormalizer(np.array([[-1.0], [2]]), np.array([[1.0], [5]])), [
        lambda p: p.normalize(Y), lambda p: p.unnormalize(Y)]
    yield "normalizer", lambda: misc.UnboundedNormalizer(np.array([[-1.0], [2]]), np.array([[4.0, 1], [1, 3]])), [
        lambda p: p.normalize(Y), lambda p: p.unnormalize(Y)]
    yield "runner", lambda: simrunners.SimulationRunner(quad), [lambda p: p.run(X), lambda p: p.run(X[:1])]


def queries(ctx, depth):
    """Asking an object does not change it: every sequence of queries, results overwritten in between."""
    for name, mk, qs in trained():
        ref, state = [], None
        with ctx.case({"object": name}):
            for q in qs:
                p = mk()
                np.random.seed(4)
                ref.append([np.array(v) for v in flat(q(p))])
        if len(ref) != len(qs):
            continue
        for seq in itertools.product(range(len(qs)), repeat=depth):
            with ctx.case({"object": name, "queries": seq}):
                p = mk()
                state = snapshot(p)
                for i in seq:
                    np.random.seed(4)
                    r = flat(qs[i](p))
                    equal(r, ref[i], 1e-9, "query {}".format(i))
                    for u in r:
                        if u.flags.writeable and u.size:
                            u[...] = -5
                    ctx.count("transitions")
                fail(snapshot(p) != state, "asking changed the object")
                ctx.state(name, seq)


def arrays_of(o, path="", seen=None):
    """Every array an object holds, directly or through its parts."""
    seen = set() if seen is None else seen
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        yield path, o
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            for x in arrays_of(v, "{}[{}]".format(path, i), seen):
                yield x
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            for x in arrays_of(o[k], "{}[{}]".format(path, k), seen):
                yield x
    elif hasattr(o, "__dict__"):
        for k in sorted(vars(o)):
            for x in arrays_of(vars(o)[k], path + "." + k, seen):
                yield x


def steps():
    """(name, object, operations on it): objects that are computed or trained again."""
    df = [I(9, 3), I(12, 3, 2.0), I(5, 3, 4.0)]
    X, f = data.weyl(40, 3), outs(data.weyl(40, 3))
    S = [lambda s, d=d, nb=nb: s.compute(df=d, nboot=nb) for d in df[:2] for nb in (0, 4)]
    S += [lambda s, n=n: s.partition(n) for n in (1, 2, 3)]
    S += [lambda s, t=t: s.compute(X=X, f=f, sstype=t) for t in ("OLS", "QPHD")]

    def sub():
        s = subspaces.Subspaces()
        s.compute(df=df[2])
        return s
    yield "Subspaces", sub, S
    trains = [lambda p, k=k: p.train(0.5 * data.weyl(26, 2, k), outs(data.weyl(26, 2, k))) for k in (1.0, 2.0)]
    trains.append(lambda p: p.train(data.weyl(51, 2, 3.0), outs(data.weyl(51, 2, 4.0))))
    for N in (1, 2, 3):
        yield "PolynomialApproximation {}".format(N), lambda N=N: rs.PolynomialApproximation(N=N), trains
    for N in (0, 1, 2):
        yield "RadialBasisApproximation {}".format(N), lambda N=N: rs.RadialBasisApproximation(N=N), trains
    for kind, m, n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 2)):
        tr = [lambda s, k=k: s.train_with_data(data.weyl(26, 3, k), outs(data.weyl(26, 3, k))) for k in (1.0, 2.0)]
        tr.append(lambda s: s.train_with_interface(quad, 3 if n == 1 else 2, NMC=4))
        for N in (1, 2) if n == 1 else (1,):
            yield "surface {} {} {}".format(kind, n, N), lambda k=kind, m=m, n=n, N=N: response_surfaces.ActiveSubspaceResponseSurface(
                amap(k, m, n), rs.PolynomialApproximation(N=N)), tr[:2] + (tr[2:] if kind == "bounded" else [])
        c = optimizers.BoundedMinVariableMap if kind == "bounded" else optimizers.UnboundedMinVariableMap
        yield "minimizing map {} {}".format(kind, n), lambda k=kind, m=m, n=n, c=c: c(amap(k, m, n).domain), [
            lambda p, k=k: p.train(I(40, 3, k), outs(I(40, 3, k))) for k in (1.0, 2.0)]

    def redo(n):
        def go(d):
            d.subspaces.partition(n)
            d.compute_boundary()
        return go
    yield "BoundedActiveVariableDomain", lambda: seeded(lambda: amap("bounded", 3, 2).domain), [redo(1), redo(2), lambda d: d.subspaces.compute(df=df[0])]


def kept(ctx, depth):
    """Arrays an object held before it is computed or trained again keep their values for whoever holds them."""
    for name, mk, ops in steps():
        for seq in itertools.product(range(len(ops)), repeat=depth):
            with ctx.case({"object": name, "operations": seq}):
                np.random.seed(4)
                o = mk()
                held = []
                for i in seq:
                    held += [(p, a, a.copy()) for p, a in arrays_of(o)]
                    ops[i](o)
                    for p, a, was in held:
                        fail(a.shape != was.shape or not np.array_equal(a, was, equal_nan=a.dtype.kind == "f"),
                             "an array held before ({}) changed: {} instead of {}", p, a, was)
                    ctx.count("transitions")
                ctx.state(name, seq)


def two_objects(ctx):
    """Two objects trained differently, in either order and interleaved, do not disturb each other."""
    makers = [(n, mk, qs) for n, mk, qs in trained()]
    for (n1, mk1, q1), (n2, mk2, q2) in itertools.product(makers, repeat=2):
        with ctx.case({"objects": (n1, n2)}):
            a = mk1()
            np.random.seed(4)
            ref = [np.array(v) for v in flat(q1[0](a))]
            sa = snapshot(a)
            b = mk2()
            fail(snapshot(a) != sa, "making another object changed the first")
            np.random.seed(4)
            q2[0](b)
            fail(snapshot(a) != sa, "asking another object changed the first")
            np.random.seed(4)
            equal(flat(q1[0](a)), ref, 1e-9, "query after another object was asked")
            ctx.state(n1, n2)
            ctx.count("transitions", 2)


def arguments_of_user(ctx):
    """The rows handed to a simulation may be kept or overwritten by it without any effect on the caller's array."""
    from sut import gradients, integrals
    X = I(4, 3)
    for name, run in (("finite differences", lambda f: gradients.finite_difference_gradients(X, f, h=2.0 ** -10)),
                      ("integrate", lambda f: np.array(integrals.integrate(f, amap("unbounded", 3, 2), 4, NMC=2)))):
        with ctx.case({"operation": name, "simulation": "overwrites its argument"}):
            keep = X.copy()
            np.random.seed(4)
            ref = run(quad)

            def f(x):
                v = quad(x)
                x[...] = 99
                return v
            np.random.seed(4)
            close(run(f), ref, 1e-9, what="result")
            same(X, keep, "caller's array")
            ctx.state(name)


def jobs(tier):
    J = [Job("queries", queries, 3 if tier == "thorough" else 2), Job("two objects", two_objects),
         Job("kept", kept, 3 if tier == "thorough" else 2),
         Job("arguments of the user", arguments_of_user)]
    for i in range(8):
        J.append(Job("larger {}".format(i), larger, LARGE[i::8]))
    for op in OPS:
        if op.arrays():
            J.append(Job("layouts " + op.name, variants, op))
        J.append(Job("aliases " + op.name, aliases, op))
    J += history.jobs("C22", tier, parts=8, reach=0)
    return J
