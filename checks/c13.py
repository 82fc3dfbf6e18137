"""C13: simulations run exactly once per point, in order, results in place."""
import itertools

import numpy as np

import data
import history
from core import Job, close, fail, same
from sut import gradients, simrunners

LEVEL = "model_checking"
RULE = ("numbers of points and inputs x point sets (also repeated, integer, in other layouts) x every kind of value the "
        "simulation may return, refused when it has another size; every word of answers over a small alphabet; several runs of one runner; step sizes that are "
        "exact in floating point and others")
ASSUMPTIONS = []


class Recorder:
    """A user's function: records its calls, answers from a table."""

    def __init__(self, answer):
        self.answer, self.calls = answer, []

    def __call__(self, x):
        i = len(self.calls)
        self.calls.append(np.array(x, copy=True))
        return self.answer(i, x)

    def method(self, x):
        return self(x)


class Static(object):
    log = None

    @staticmethod
    def fun(x):
        return Static.log(x)


def wrappings(r):
    yield "object", r
    yield "function", lambda x: r(x)
    yield "method", r.method
    yield "default argument", lambda x, k=2: r(x)
    Static.log = r
    yield "static method", Static.fun


KINDS = [("float", float), ("numpy float", np.float64), ("int", lambda v: int(round(8 * v))), ("zero-d", np.array),
         ("array 1", lambda v: np.array([v])), ("array 1x1", lambda v: np.array([[v]])),
         ("bool", lambda v: v > 0), ("float32", np.float32), ("int64", lambda v: np.int64(round(8 * v)))]
GKINDS = [("row", lambda g: g.reshape(1, -1)), ("flat", lambda g: g), ("column", lambda g: g.reshape(-1, 1)),
          ("int", lambda g: np.round(8 * g).astype(int).reshape(1, -1)), ("fortran", lambda g: np.asfortranarray(g.reshape(1, -1))),
          ("strided", lambda g: np.repeat(g, 2)[::2].reshape(1, -1))]


def check_calls(calls, X, what):
    M, m = X.shape
    fail(len(calls) != M, "{}: {} calls for {} points", what, len(calls), M)
    for i, c in enumerate(calls):
        fail(c.shape != (1, m), "{}: called with shape {}", what, c.shape)
        same(c[0].astype(float), X[i].astype(float), "{}: call {}".format(what, i))


def inputs(M, m):
    for nm, X in data.arrays(M, m):
        yield nm, X
    w = data.weyl(M, m)
    yield "int dtype", np.floor(9 * w).astype(int)
    yield "float32", w.astype(np.float32)
    for nm, X in data.relayouts(w):
        yield nm, X


def values(ctx, m, Ms):
    for M in Ms:
        for nm, X in inputs(M, m):
            for kn, conv in KINDS:
                with ctx.case({"M": M, "m": m, "X": nm, "returns": kn}):
                    v = data.weyl(M, 1, 3.0)[:, 0]
                    keep = X.copy()
                    for wn, f in wrappings(Recorder(lambda i, x: conv(v[i]))):
                        r = f if isinstance(f, Recorder) else None
                        rec = Recorder(lambda i, x: conv(v[i]))
                        f = dict(wrappings(rec))[wn]
                        F = simrunners.SimulationRunner(f).run(X)
                        check_calls(rec.calls, keep, "run")
                        fail(np.shape(F) != (M, 1), "results have shape {}", np.shape(F))
                        same(F[:, 0], np.array([float(np.asarray(conv(u)).ravel()[0]) for u in v]), "results")
                        ctx.count("transitions", M)
                    same(X, keep, "argument")
                    ctx.state(M, m, nm, kn, F)
            for kn, conv in GKINDS:
                with ctx.case({"M": M, "m": m, "X": nm, "gradient": kn}):
                    G = data.weyl(M, m, 4.0)
                    rec = Recorder(lambda i, x: conv(G[i]))
                    D = simrunners.SimulationGradientRunner(rec).run(X)
                    check_calls(rec.calls, X, "gradient run")
                    fail(np.shape(D) != (M, m), "gradients have shape {}", np.shape(D))
                    same(D, np.array([np.asarray(conv(g), float).ravel() for g in G]), "gradients")
                    ctx.state(M, m, nm, kn, D)
                    ctx.count("transitions", M)


def table(ctx, M, alphabet):
    """Every word of answers, also huge, negative, infinite and undefined ones, and repeated points."""
    for ans in itertools.product(alphabet, repeat=M):
        for X in (data.weyl(M, 2), np.ones((M, 2)), np.arange(2.0 * M).reshape(M, 2)[::-1]):
            with ctx.case({"answers": [repr(a) for a in ans]}):
                rec = Recorder(lambda i, x: ans[i])
                F = simrunners.SimulationRunner(rec).run(X)
                check_calls(rec.calls, X, "run")
                same(F[:, 0], np.array(ans), "results")
                rec = Recorder(lambda i, x: np.array([[ans[i], ans[-1 - i]]]))
                D = simrunners.SimulationGradientRunner(rec).run(X)
                check_calls(rec.calls, X, "gradient run")
                same(D, np.array([[a, b] for a, b in zip(ans, ans[::-1])]), "gradients")
                ctx.state(ans)
                ctx.count("transitions", M)


def changing(ctx):
    """A simulation that writes into its argument, keeps it, or answers with the same buffer every time."""
    for M, m in itertools.product((1, 2, 3, 5), (1, 2, 3)):
        X = data.weyl(M, m)
        with ctx.case({"M": M, "m": m, "gradient": "one buffer"}):
            buf = np.zeros((1, m))

            def df(x):
                buf[...] = 2 * x
                return buf
            same(simrunners.SimulationGradientRunner(df).run(X), 2 * X, "gradients from one buffer")
            ctx.count("transitions", M)
        with ctx.case({"M": M, "m": m, "value": "one buffer"}):
            b1 = np.zeros((1, 1))

            def f(x):
                b1[0, 0] = np.sum(x)
                return b1
            close(simrunners.SimulationRunner(f).run(X)[:, 0], np.sum(X, axis=1), 1e-14, what="results from one buffer")
        with ctx.case({"M": M, "m": m, "kept": True}):
            kept = []

            def g(x):
                kept.append(x)
                return float(len(kept))
            F = simrunners.SimulationRunner(g).run(X)
            same(np.vstack(kept), X, "arguments kept by the simulation")
            same(F[:, 0], np.arange(1.0, M + 1), "results")
        with ctx.case({"M": M, "m": m, "result": "kept by the simulation"}):
            out = []

            def h(x):
                out.append(3 * x)
                return out[-1]
            D = simrunners.SimulationGradientRunner(h).run(X)
            for o in out:
                o[...] = 9
            same(D, 3 * X, "gradients after the simulation reused its arrays")
            ctx.state(M, m, D)


def misfits(ctx):
    """Answers of another size have no place in the results: they are refused, at whichever call they come."""
    for M, m in itertools.product((1, 2, 3, 5), (1, 2, 3, 4)):
        X = data.weyl(M, m)
        for at, k in itertools.product(range(M), (0, 1, 2, 3, 4, 5, 6, 8)):
            for shape in ((k,), (1, k), (k, 1)):
                for which in ("value", "gradient"):
                    if k == (1 if which == "value" else m):
                        continue
                    with ctx.case({"M": M, "m": m, "call": at, "shape": shape, "kind": which}):
                        good = np.ones((1, 1 if which == "value" else m))
                        rec = Recorder(lambda i, x: np.ones(shape) if i == at else good)
                        R = (simrunners.SimulationRunner if which == "value" else simrunners.SimulationGradientRunner)(rec)
                        try:
                            F = R.run(X)
                        except Exception:
                            F = None
                        fail(F is not None, "a {} of shape {} was accepted", which, shape)
                        ctx.state(M, m, at, shape, which)
                        ctx.count("transitions", len(rec.calls))


def runs(ctx):
    """Runners are reusable: every sequence of runs on two runners."""
    sets = [data.weyl(1, 2), data.weyl(3, 2, 1.0), data.weyl(2, 3, 2.0), np.arange(4).reshape(2, 2)]
    for hist in itertools.product(itertools.product((0, 1, 2, 3), (0, 1)), repeat=3):
        with ctx.case({"runs": hist}):
            recs = [Recorder(lambda i, x: float(np.sum(x))), Recorder(lambda i, x: float(np.prod(x)))]
            R = [simrunners.SimulationRunner(r) for r in recs]
            res = []
            for k, w in hist:
                n0 = len(recs[w].calls)
                F = R[w].run(sets[k])
                check_calls(recs[w].calls[n0:], sets[k], "run")
                want = (np.sum if w == 0 else np.prod)(sets[k].astype(float), axis=1)
                close(F[:, 0], want, 1e-14, what="results")
                res.append((F, want))
                ctx.count("transitions", len(F))
            for F, want in res:
                close(F[:, 0], want, 1e-14, what="results of an earlier run")
            ctx.state(hist)


HS = [2.0 ** -20, 2.0 ** -3, 1e-6, 0.1, 1.0, 2.0, -2.0 ** -10, 1]


def differences(ctx, m, Ms):
    for M in Ms:
        for nm, X in inputs(M, m):
            if nm in ("large", "small"):
                continue
            for h in HS + [None]:
                with ctx.case({"M": M, "m": m, "X": nm, "h": h}):
                    hh = 1e-6 if h is None else h
                    kw = {} if h is None else {"h": h}
                    Xf = X.astype(float)
                    want = {}
                    for i in range(M):
                        want[(i, -1)] = Xf[i]
                        for j in range(m):
                            p = Xf[i].copy()
                            p[j] += hh
                            want[(i, j)] = p
                    T = data.weyl(M * (m + 1), 1, 5.0)[:, 0]
                    for runner in (False, True):
                        table, points = {}, []

                        def f(x):
                            k = (np.asarray(x, float) + 0.0).tobytes()          # zeros have no sign
                            points.append(np.array(x, float))
                            return table.setdefault(k, float(T[len(table)]))
                        keep = X.copy()
                        D = gradients.finite_difference_gradients(X, simrunners.SimulationRunner(f) if runner else f, **kw)
                        same(X, keep, "argument")
                        fail(np.shape(D) != (M, m), "shape {}", np.shape(D))
                        fail(len(points) != M * (m + 1), "{} evaluations instead of {}", len(points), M * (m + 1))
                        fail(any(p.shape != (1, m) for p in points), "called with shape {}", points[0].shape)
                        P = np.vstack(points)
                        # each expected point is evaluated (to rounding) as often as it is listed
                        match = match_points(P, np.array(list(want.values())), 1e-12)
                        fail(match is None, "evaluated points {} instead of {}", P, list(want.values()))
                        val = {k: table[(P[q] + 0.0).tobytes()] for k, q in zip(want, match)}
                        for i, j in itertools.product(range(M), range(m)):
                            d = (val[(i, j)] - val[(i, -1)]) / hh
                            fail(abs(D[i, j] - d) > 1e-9 * (1 + abs(d)) + 1e-14 / abs(hh), "entry ({},{}): {} instead of {}", i, j, D[i, j], d)
                        ctx.count("transitions", len(points))
                    ctx.state(M, m, nm, h, D)


def match_points(P, Q, tol):
    """Assignment of the rows of Q to different rows of P, or None."""
    left = list(range(len(P)))
    out = []
    for q in Q:
        hit = next((k for k in left if np.max(np.abs(P[k] - q)) <= tol * (1 + np.max(np.abs(q)))), None)
        if hit is None:
            return None
        left.remove(hit)
        out.append(hit)
    return out


def linear(ctx, m):
    """Linear functions: exact slopes for steps that are powers of two; quadratics: slope plus h times curvature."""
    for M in (1, 2, 4, 7):
        X = np.round(16 * data.weyl(M, m)) / 16
        b = np.round(8 * data.weyl(1, m, 1.0)[0])
        q = np.round(4 * data.weyl(1, m, 2.0)[0])
        for h in (0.5, 0.25, 2.0 ** -8, 1.0, -0.5):
            with ctx.case({"M": M, "m": m, "h": h}):
                D = gradients.finite_difference_gradients(X, lambda x: float(np.dot(x[0], b)), h=h)
                close(D, np.tile(b, (M, 1)), 1e-11, what="slopes of a linear function")
                D = gradients.finite_difference_gradients(X, lambda x: float(np.dot(x[0] ** 2, q)), h=h)
                close(D, 2 * X * q + h * q, 1e-11, what="differences of a quadratic function")
                ctx.state(m, M, h, D)
                ctx.count("transitions", M)


def magnitudes(ctx, m):
    """Points of every magnitude, also different ones per input and per point; steps that stay exact."""
    for M, kx, h in itertools.product((1, 2, 3), (-40, -20, -7, 0, 3, 7, 12, 20, 30), (2.0 ** -20, 2.0 ** -8, 1.0, 2.0 ** 6, -0.5)):
        for where in ("all", "first input", "last input", "first point", "one entry"):
            X = np.round(64 * data.weyl(M, m, 0.8)) / 64
            S = np.ones((M, m))
            {"all": S, "first input": S[:, :1], "last input": S[:, -1:], "first point": S[:1], "one entry": S[-1:, :1]}[where][...] = 2.0 ** kx
            X = X * S
            P = np.vstack([X] + [X + h * np.eye(m)[j] for j in range(m)])
            if np.any((P[M:] - np.tile(X, (m, 1))) != np.kron(np.eye(m), np.ones((M, 1))) * h):
                continue                                   # the step is rounded at these points
            with ctx.case({"M": M, "m": m, "h": h, "magnitude": kx, "where": where}):
                val = np.round(1000 * data.weyl(M * (m + 1), 1, 5.0)[:, 0])
                calls = []

                def f(x):
                    calls.append(np.array(x[0]))
                    i = int(np.where(np.all(P == x, axis=1))[0][0]) if np.any(np.all(P == x, axis=1)) else -1
                    return float(val[i])
                D = gradients.finite_difference_gradients(X, f, h=h)
                got = np.array(calls)
                fail(got.shape != P.shape, "{} evaluations instead of {}", len(got), len(P))
                same(got[np.lexsort(got.T)], P[np.lexsort(P.T)], "evaluated points")
                first = {}
                for i in range(len(P) - 1, -1, -1):
                    first[(P[i] + 0.0).tobytes()] = val[i]
                want = np.array([[(first[(P[M * (j + 1) + i] + 0.0).tobytes()] - first[(P[i] + 0.0).tobytes()]) / h for j in range(m)] for i in range(M)])
                close(D, want, 1e-12, what="differences")
                ctx.state(M, m, kx, where, h)
                ctx.count("transitions", len(got))


def many(ctx, sizes):
    """Numbers of points and inputs at which a runner could change its method."""
    for M, m in sizes:
        X = np.round(2.0 ** 12 * data.weyl(M, m, 0.8)) / 2.0 ** 12
        X[-1] = X[0]                                        # a repeated point is simulated again
        for order in ("as given", "sorted", "fortran"):
            Z = X[np.lexsort(X.T)] if order == "sorted" else (np.asfortranarray(X) if order == "fortran" else X)
            with ctx.case({"M": M, "m": m, "order": order}):
                v = data.weyl(M, 1, 3.0)[:, 0]
                rec = Recorder(lambda i, x: v[i])
                F = simrunners.SimulationRunner(rec).run(Z)
                fail(len(rec.calls) != M or any(c.shape != (1, m) for c in rec.calls), "{} calls", len(rec.calls))
                same(np.vstack(rec.calls), Z, "calls")
                same(F, v.reshape(M, 1), "results")
                G = data.weyl(M, m, 4.0)
                rec = Recorder(lambda i, x: G[i:i + 1])
                D = simrunners.SimulationGradientRunner(rec).run(Z)
                fail(len(rec.calls) != M or any(c.shape != (1, m) for c in rec.calls), "{} calls", len(rec.calls))
                same(np.vstack(rec.calls), Z, "calls of the gradient")
                same(D, G, "gradients")
                ctx.state(M, m, order, F[:5])
                ctx.count("transitions", 2 * M)
        if M * m > 40000:
            continue
        with ctx.case({"M": M, "m": m, "differences": True}):
            b = np.round(8 * data.weyl(1, m, 1.0)[0])
            q = np.round(4 * data.weyl(1, m, 2.0)[0])
            calls = []

            def f(x):
                calls.append(np.array(x[0]))
                return float(np.dot(x[0], b) + np.dot(x[0] ** 2, q))
            h = 2.0 ** -6
            D = gradients.finite_difference_gradients(X, f, h=h)
            close(D, b + 2 * X * q + h * q, 1e-9, what="differences of a quadratic function")
            want = np.vstack([X] + [X + h * np.eye(m)[j] for j in range(m)])
            got = np.array(calls)
            fail(got.shape != want.shape, "{} evaluations instead of {}", len(got), len(want))
            same(got[np.lexsort(got.T)], want[np.lexsort(want.T)], "evaluated points")
            ctx.state(M, m, D[:5])
            ctx.count("transitions", len(got))


def jobs(tier):
    big = tier == "thorough"
    J = [Job("changing", changing), Job("runs", runs), Job("misfits", misfits)]
    for m in (1, 2, 3) + ((5, 8) if big else (5,)):
        J.append(Job("values m={}".format(m), values, m, (1, 2, 3, 6) + ((11,) if big else ())))
        J.append(Job("differences m={}".format(m), differences, m, (1, 2, 3, 5)))
        J.append(Job("linear m={}".format(m), linear, m))
        J.append(Job("magnitudes m={}".format(m), magnitudes, m))
    sizes = [(M, m) for M in data.BIGM for m in (1, 2, 3)] + [(M, m) for m in data.BIGDIM + (200, 257, 500) for M in (1, 3, 41)]
    for i in range(4):
        J.append(Job("many points {}".format(i), many, sizes[i::4]))
    A = (0.0, -1.5, 1e300, -1e-300, np.inf, np.nan)
    for M in (1, 2, 3) + ((4,) if big else ()):
        J.append(Job("answers M={}".format(M), table, M, A))
    J += history.jobs("C13", tier)
    return J
