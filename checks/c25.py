"""C25: designs have the requested points inside the domain."""
import itertools

import numpy as np
from scipy.spatial import ConvexHull

import data
import history
import policies
from core import Job, close, explore, fail, same, scripted
from sut import designs, domains, local_solver, make_subspaces, response_surfaces, seeded

LEVEL = "model_checking"
TECHNIQUE = ("explicit-state enumeration of intervals, polytopes, numbers of points and maps; every sequence of answers of the "
             "local solver, chosen by the explorer")
RULE = ("intervals x N; tensor rules of up to three dimensions; polytopes (symmetric or not) x positions x scales x N; every "
        "combination of good, poor, best and failing answers of the local solver over all starts; maps of all kinds x N x NMC x "
        "patterns of random numbers")
ASSUMPTIONS = ["maximin designs: the spread is judged against a greedy design on a grid, with a factor 0.4"]


# --------------------------------------------------------------------------------------------------- one dimension
def interval(ctx, Ns):
    ends = [-7.0, -1.0, -0.5, 0.0, 1e-3, 0.75, 1.0, 3.0, 1e3]
    for a, b in itertools.combinations(ends, 2):
        for N in Ns:
            with ctx.case({"a": a, "b": b, "N": N}):
                Y = np.asarray(designs.interval_design(a, b, N))
                fail(Y.shape != (N, 1), "shape {}", Y.shape)
                ref = a + (b - a) * np.arange(1, N + 1) / (N + 1.0)
                close(Y[:, 0], ref, 1e-13, what="points")
                fail(not (np.all(Y > a) and np.all(Y < b)), "the design contains an endpoint: {}", Y)
                ctx.state(a, b, N)


def short(ctx, Ns):
    """Intervals of every length, near zero and far from it."""
    for mid, k in itertools.product((0.0, 1.0, -3.0, 1e3, -1e6, 1e9), range(-14, 13, 2)):
        for e in (0.0, 0.5, 1.0):
            w = 10.0 ** k
            a = mid - e * w
            b = a + w
            for N in Ns:
                if w < 1e3 * (N + 1) * np.spacing(max(abs(a), abs(b))):
                    continue                               # no room for the points
                with ctx.case({"a": a, "b": b, "N": N}):
                    Y = np.asarray(designs.interval_design(a, b, N))
                    fail(Y.shape != (N, 1), "shape {}", Y.shape)
                    ref = a + (b - a) * np.arange(1, N + 1) / (N + 1.0)
                    tol = 8 * np.spacing(max(abs(a), abs(b)))
                    fail(np.max(np.abs(Y[:, 0] - ref)) > tol, "points {} instead of {}", Y[:, 0], ref)
                    fail(not (np.all(Y > a) and np.all(Y < b)), "the design contains an endpoint: {}", Y)
                    ctx.state(a, b, N)


def tensor(ctx, words):
    for w in words:
        with ctx.case({"N": w}):
            arg = list(w)
            Y = np.asarray(designs.gauss_hermite_design(arg))
            same(arg, list(w), "argument")
            check_tensor(Y, w)
            ctx.state(w)
            if len(w) == 1:
                close(np.asarray(designs.gauss_hermite_design(w[0])), Y, 1e-12, what="one number instead of a list")


def check_tensor(Y, w):
    """Y has the nodes of the tensor rule in some order."""
    one = [np.polynomial.hermite_e.hermegauss(n)[0] for n in w]
    ref = np.array(list(itertools.product(*one)))
    fail(Y.shape != ref.shape, "shape {} instead of {}", Y.shape, ref.shape)
    for t in ref:
        k = np.argmin(np.max(np.abs(Y - t), axis=1))
        fail(np.max(np.abs(Y[k] - t)) > 1e-8, "the node {} is missing", t)


# ------------------------------------------------------------------------------------------------------- polytopes
def hull(V):
    H = ConvexHull(V)
    return H.equations[:, :-1], H.equations[:, -1]


def excess(Y, V):
    """How far points lie outside, relative to the size of the polytope."""
    A, b = hull(V)
    return float(np.max(Y.dot(A.T) + b)) / float(np.max(np.ptp(V, axis=0)))


def spread(Y, V):
    """Smallest distance between two points or a point and a vertex."""
    d = np.sqrt(np.min(np.sum((Y[:, None, :] - V[None, :, :]) ** 2, axis=2)))
    for i in range(len(Y)):
        for j in range(i):
            d = min(d, np.sqrt(np.sum((Y[i] - Y[j]) ** 2)))
    return float(d)


def greedy(V, N, k):
    """Spread of the design that adds the farthest point of a grid."""
    g = np.array(list(itertools.product(*[np.linspace(a, b, k) for a, b in zip(V.min(axis=0), V.max(axis=0))])))
    A, b = hull(V)
    g = g[np.all(g.dot(A.T) + b <= 1e-9 * np.ptp(V), axis=1)]
    d = np.sqrt(np.min(np.sum((g[:, None, :] - V[None, :, :]) ** 2, axis=2), axis=1))
    out = []
    for _ in range(N):
        i = int(np.argmax(d))
        out.append(g[i])
        d = np.minimum(d, np.sqrt(np.sum((g - g[i]) ** 2, axis=1)))
    return spread(np.array(out), V)


def shapes():
    yield "triangle", np.array([[0.0, 0], [1, 0], [0, 1]])
    yield "flat triangle", np.array([[0.0, 0], [4, 0], [1, 1]])
    yield "square", np.array(list(itertools.product([-1.0, 1.0], repeat=2)))
    yield "rectangle", np.array(list(itertools.product([0.0, 3.0], [0.0, 1.0])))
    yield "pentagon", np.array([[0.0, 0], [4, 0], [5, 3], [2, 5], [-1, 3]])
    yield "hexagon", np.array([[2.0, 0], [1, 2], [-1, 2], [-2, 0], [-1, -2], [1, -2]])
    yield "cube", np.array(list(itertools.product([0.0, 1.0], repeat=3)))
    yield "tetrahedron", np.vstack((np.zeros(3), np.eye(3)))


def zonotopes(ms):
    for m, n in ms:
        for ph in (0.3, 0.7):
            yield "zonotope {} {} {}".format(m, n, ph), seeded(
                lambda: domains.BoundedActiveVariableDomain(make_subspaces(data.ortho(m, ph), n=n))).vertY


def judge(Y, V, N, what=""):
    Y = np.asarray(Y)
    fail(Y.shape != (N, V.shape[1]), "{}shape {}", what, Y.shape)
    fail(not np.all(np.isfinite(Y)), "{}not finite: {}", what, Y)
    ex = excess(Y, V)
    fail(ex > 1e-6, "{}a point lies {} of the polytope's size outside: {}", what, ex, Y)


def polytope(ctx, name, V, offsets, scales, Ns):
    n = V.shape[1]
    k = {2: 21, 3: 11}.get(n, 6)
    for N in Ns:
        ref = greedy(V, N, k)
        for t, s in itertools.product(offsets, scales):
            shift = t * np.array([1.0, -0.5, 2.0, 0.25])[:n] * s
            with ctx.case({"polytope": name, "N": N, "shift": t, "scale": s}):
                U = s * V + shift
                keep = U.copy()
                Y = designs.maximin_design(U, N)
                same(U, keep, "vertices")
                judge(Y, U, N)
                q = spread(np.asarray(Y), U) / s
                fail(q < 0.4 * ref, "smallest distance {} though {} is possible: {}", q, ref, Y)
                ctx.state(name, N, np.round((np.asarray(Y) - shift) / s, 3))


class SolverModel(object):
    """Answers instead of the local solver: for start i the design `answers[i]`, or a failure."""

    def __init__(self, answer):
        self.answer, self.calls, self.given = answer, 0, []

    def __call__(self, real, fun, x0, *a, **k):
        import scipy.optimize
        i = self.calls
        self.calls += 1
        args = k.get("args", a[0] if a else ())
        x0 = np.asarray(x0, float)
        kind = self.answer(i)
        x, ok = kind(x0, fun, args, k, real)
        f = float(fun(x, *args))
        self.given.append((np.array(x), f, ok))
        return scipy.optimize.OptimizeResult(x=x, fun=f, success=ok, status=0 if ok else 8, message="model", nit=1, nfev=1, njev=1)


def _real(x0, fun, args, k, real):
    r = real(fun, x0, args=args, **{q: v for q, v in k.items() if q != "args"})
    return (np.asarray(r.x, float) if r.success else np.array(x0)), True


def _collapse(c):
    """Pull the real answer towards a common point: the spread shrinks, feasibility stays."""
    def ans(x0, fun, args, k, real):
        x = _real(x0, fun, args, k, real)[0]
        n = np.asarray(args[0]).shape[1]
        Y = x.reshape(-1, n)
        return ((1 - c) * Y + c * np.mean(np.asarray(args[0]), axis=0)).ravel(), True
    return ans


def _failed(x0, fun, args, k, real):
    return 1e3 + np.arange(x0.size) * 10.0, False


def answers(ctx, name, V, N):
    """Every sequence of answers of the local solver; the returned design is the best of the successful ones."""
    kinds = [("real", _real), ("half", _collapse(0.5)), ("worse", _collapse(0.8)), ("failed", _failed)]

    def run(ch):
        model = SolverModel(lambda i: kinds[ch.choose(len(kinds), "answer")][1])
        err, Y = None, None
        with local_solver(model):
            try:
                Y = np.asarray(designs.maximin_design(V, N))
            except Exception as e:
                err = e
        return model, Y, err, [kinds[c][0] for _, c, _, _ in ch.trace]
    done, single = list(explore(run, None, ctx.stats)), {}
    for choices, (model, Y, err, seq) in done:
        good = [g for g in model.given if g[2]]
        if len(good) == 1 and Y is not None and Y.shape == (N, V.shape[1]):
            single[good[0][0].tobytes()] = spread(Y, V)
    for choices, (model, Y, err, seq) in done:
        with ctx.case({"polytope": name, "N": N, "answers": seq}):
            fail(model.calls == 0, "the local solver is not used")
            good = [g for g in model.given if g[2]]
            if not good:
                fail(err is None, "no search succeeded but the design is {}", Y)
                continue
            if err is not None:
                raise err
            judge(Y, V, N)
            # every answer alone gives a design; the best of them is to be returned
            alone = [single[g[0].tobytes()] for g in good if g[0].tobytes() in single]
            if len(alone) < len(good):
                ctx.count("answers never seen alone")
                continue
            close(spread(Y, V), max(alone), 1e-9, what="smallest distance in the design, out of {}".format(np.round(alone, 6).tolist()))
            ctx.state(name, N, seq)


def objective(ctx, name, V, N):
    """What the local solver is asked: constraints that hold inside the polytope, and consistent derivatives."""
    seen = []

    def watch(real, fun, x0, *a, **k):
        seen.append((fun, np.array(x0), a, dict(k)))
        return real(fun, x0, *a, **k)
    with ctx.case({"polytope": name, "N": N}):
        with local_solver(watch):
            designs.maximin_design(V, N)
    for i, (fun, x0, a, k) in enumerate(seen):
        with ctx.case({"polytope": name, "N": N, "start": i}):
            args = k.get("args", a[0] if a else ())
            jac = k.get("jac")
            for j, x in enumerate([x0, 0.7 * x0 + 0.05 * np.arange(x0.size), x0 + 0.03 * np.cos(np.arange(x0.size))]):
                if callable(jac):
                    h = 1e-6
                    up = [fun(x + h * e, *args) for e in np.eye(x.size)]
                    dn = [fun(x - h * e, *args) for e in np.eye(x.size)]
                    mid = fun(x, *args)
                    fd = (np.array(up) - np.array(dn)) / (2 * h)
                    smooth = np.max(np.abs(np.array(up) + np.array(dn) - 2 * mid)) < 1e-9   # no tie nearby
                    if smooth:
                        close(jac(x, *args), fd, 1e-5, what="gradient of the objective")
                        ctx.count("gradients")
                cons = k.get("constraints", ())
                for c in (cons if isinstance(cons, (list, tuple)) else [cons]):
                    if isinstance(c, dict) and callable(c.get("jac")):
                        fd = np.array([(np.asarray(c["fun"](x + h2 * e)) - np.asarray(c["fun"](x - h2 * e))) / (2 * h2)
                                       for h2 in (1e-3,) for e in np.eye(x.size)]).T
                        close(c["jac"](x), fd, 1e-6, what="derivatives of the constraints")
            ctx.state(name, N, i)


# ------------------------------------------------------------------------------------------------------------ maps
def the_map(kind, m, n, ph):
    s = make_subspaces(data.ortho(m, ph), n=n)
    if kind == "bounded":
        return seeded(lambda: domains.BoundedActiveVariableMap(domains.BoundedActiveVariableDomain(s)))
    return domains.UnboundedActiveVariableMap(domains.UnboundedActiveVariableDomain(s))


def av_design(ctx, kind, m, n, Ns, NMCs, phases):
    for ph in phases:
        mp = the_map(kind, m, n, ph)
        for N, NMC in itertools.product(Ns, NMCs):
            pats = policies.UNIFORM[:3] if kind == "bounded" else policies.NORMAL[:3]
            for pat in range(len(pats)):
                with ctx.case({"map": kind, "m": m, "n": n, "phase": ph, "N": N, "NMC": NMC, "pattern": pat}):
                    def policy(k, p, shape):
                        if k == "int":
                            return np.zeros(shape, int)
                        L = policies.UNIFORM if k == "uniform" else policies.NORMAL
                        return L[pat](shape)
                    with scripted(policy):
                        Y, X, ind = [np.asarray(v) for v in response_surfaces.av_design(mp, N, NMC=NMC)]
                    if kind == "unbounded":
                        k = 1
                        while (k + 1) ** n <= N:
                            k += 1
                        check_tensor(Y, [k] * n)
                    elif n == 1:
                        a, b = np.sort(mp.domain.vertY[:, 0])
                        close(np.sort(Y[:, 0]), a + (b - a) * np.arange(1, N + 1) / (N + 1.0), 1e-12, what="points")
                        fail(Y.shape != (N, 1), "shape {}", Y.shape)
                    else:
                        judge(Y, mp.domain.vertY, N)
                        q, ref = spread(Y, mp.domain.vertY), greedy(mp.domain.vertY, N, 13)
                        fail(q < 0.4 * ref, "smallest distance {} though {} is possible", q, ref)
                    reps = 1 if m == n else NMC
                    NY = len(Y)
                    ind = ind.ravel()
                    if m != n:
                        fail(X.shape != (NY * reps, m), "{} inputs of {} points with NMC={}", X.shape, NY, NMC)
                        same(ind.astype(float), np.repeat(np.arange(NY), reps).astype(float), "indices")
                    fail(len(ind) != len(X), "{} indices of {} inputs", len(ind), len(X))
                    close(X.dot(mp.domain.subspaces.W1), Y[ind.astype(int)], 1e-6, what="inputs map to their points")
                    if kind == "bounded":
                        fail(np.max(np.abs(X)) > 1 + 1e-8, "an input lies outside: {}", X[np.argmax(np.max(np.abs(X), axis=1))])
                    ctx.state(kind, m, n, N, NMC, np.round(Y, 4), pat)


def jobs(tier):
    big = tier == "thorough"
    J = [Job("intervals", interval, list(range(1, 40)) + [100, 1000] if big else [1, 2, 3, 4, 5, 8, 13, 40]),
         Job("tensor", tensor, [w for d in (1, 2, 3) for w in itertools.product(range(1, 8 if big else 5), repeat=d)] +
             [(12,), (20,), (1, 9), (9, 1), (2, 1, 8)])]
    P = list(shapes()) + list(zonotopes([(3, 2), (4, 2), (4, 3), (5, 2)] + ([(5, 3), (6, 2), (6, 3), (7, 2)] if big else [])))
    for nm, V in P:
        off, sc = [0.0, 3.0, -40.0], [1.0, 0.05, 30.0]
        J.append(Job(nm, polytope, nm, V, off + ([200.0] if big else []), sc + ([1e-3, 1e3] if big else []), [1, 2, 3, 4, 5, 6] if not big else range(1, 10),
                     timeout=120))
    J.append(Job("short", short, (1, 2, 3, 7, 30)))
    J.append(Job("many points of an interval", interval, (9, 10, 11, 16, 25, 33, 50, 64, 99, 100, 101, 128, 129, 257, 500, 999, 1000, 1001, 2053)))
    J.append(Job("many nodes", tensor, [(k,) for k in range(8, 40)] + [(11, 12), (30, 2), (2, 26), (40, 40), (1, 33), (10, 11, 3), (2, 3, 4, 2),
                                                                      (2, 2, 2, 2, 2), (1, 1, 1, 1, 3), (2, 2, 2, 2, 2, 2), (3, 1, 2, 1, 2, 1, 2)]))
    for nm, V in P:
        if nm in ("square", "pentagon", "tetrahedron", "zonotope 4 2 0.3"):
            J.append(Job("many points {}".format(nm), polytope, nm, V, [0.0, 3.0], [1.0], [7, 8, 9, 10, 11, 12, 16] if V.shape[1] < 3 else [8, 11], timeout=300))
    for m, n in ((2, 1), (3, 1), (6, 1), (10, 1)):
        J.append(Job("many bounded {} {}".format(m, n), av_design, "bounded", m, n, [10, 11, 33, 64, 101, 257], [1, 10, 11], (0.3,), timeout=300))
    for m, n in ((2, 1), (3, 2), (4, 3), (6, 4), (10, 1), (10, 2), (7, 5), (7, 6)):
        J.append(Job("many unbounded {} {}".format(m, n), av_design, "unbounded", m, n, [10, 25, 30, 35, 36, 63, 64, 101, 242, 243, 244, 500, 729] if n > 1 else
                     [10, 11, 16, 25, 26, 33, 40], [1, 10, 33], (0.3,), timeout=300))
    for nm, V in P:
        if nm in ("square", "pentagon", "tetrahedron") or nm.startswith("zonotope 4 2"):
            for N in (2, 3, 4) if big else (2, 3):
                J.append(Job("answers {} {}".format(nm, N), answers, nm, V, N))
        for N in (1, 2, 4):
            J.append(Job("objective {} {}".format(nm, N), objective, nm, V, N))
    for m, n in ((2, 1), (3, 1), (4, 1), (3, 2), (4, 2), (4, 3)) + (((5, 2), (6, 1), (5, 3)) if big else ()):
        J.append(Job("bounded {} {}".format(m, n), av_design, "bounded", m, n, [1, 2, 3, 5, 8] if n == 1 else [1, 2, 3, 4],
                     [1, 2, 3], (0.3, 0.7) if big else (0.3,), timeout=120))
    for m, n in ((2, 1), (3, 1), (2, 2), (3, 2), (3, 3), (4, 3), (5, 2)):
        J.append(Job("unbounded {} {}".format(m, n), av_design, "unbounded", m, n, [1, 2, 3, 4, 7, 8, 9, 16, 26, 27, 28] + ([63, 64, 65, 81, 125] if big else [64]),
                     [1, 3], (0.3, 0.7) if big else (0.3,)))
    J += history.jobs("C25", tier)
    return J
