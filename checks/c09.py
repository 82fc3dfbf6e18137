"""C09: samplers of the inactive variables keep the inputs in the hypercube."""
import itertools

import numpy as np
from scipy.optimize import linprog

import data
import history
from core import Job, close, explore, fail, same, scripted
from policies import ALMOST1, NORMAL, UNIFORM, fixed, patterns
from refs import Zonotope
from sut import domains

LEVEL = "model_checking"
RULE = ("bases in general position x active points in the center, inside, on facets and at vertices; hit-and-run: every "
        "combination of directions and positions along them; random walk: every step accepted or refused up to a number of "
        "deviations; rejection: every number of proposals inside around N; whole-draw patterns for the combination")
ASSUMPTIONS = ["bases in general position", "fewer active variables than inputs",
               "inputs may exceed the hypercube by 1e-6, the documented tolerance of the sampler"]
TOL = 1e-6
STEPS = (0.5, ALMOST1, 0.4, 0.0, 0.6, ALMOST1, 0.7)      # positions along the segment, its ends included


def bases(m, n):
    W = data.ortho(m, 0.5)
    yield "rotation", W[:, :n], W[:, n:]
    W = data.ortho(m, 2.5)
    yield "rotation 2", W[:, :n], W[:, n:]


def flat(m, n):
    """Bases with zeros: coordinates, and the direction of the diagonal."""
    if n == 1:
        yield "coordinate", np.eye(m)[:, :1], np.eye(m)[:, 1:]
        v = np.ones((m, 1)) / np.sqrt(m)
        Q = np.linalg.qr(np.hstack((v, np.eye(m)[:, 1:])))[0]
        Q = Q * np.sign(Q[0, 0])
        yield "diagonal", Q[:, :1], Q[:, 1:]


def where(W1, general=True):
    """Named active points."""
    m, n = W1.shape
    yield "center", np.zeros(n)
    yield "inside", (0.8 * data.weyl(1, m, 5.0)).dot(W1)[0]
    yield "inside 2", (0.6 * data.weyl(1, m, 7.0)).dot(W1)[0]
    if n == 1:
        v = np.array([np.sum(np.abs(W1))])
        V = np.array([v, -v])
    else:
        Z = Zonotope(W1)
        V = Z.vertices()
        for k in (0, len(Z.h) // 2):
            q, h = Z.normals[k], Z.h[k]
            on = [u for u in V if abs(q.dot(u) - h) < 1e-9]
            yield "facet", np.mean(on, axis=0)
    yield "vertex", V[0]
    yield "other vertex", V[-1]
    yield "near vertex", (1 - 1e-4) * V[0]
    yield "almost vertex", (1 - 1e-9) * V[0]


def inside(Z, N, y, W1, W2, what):
    m, n = W1.shape
    fail(not isinstance(Z, np.ndarray) or Z.shape != (N, m - n), "{}: returned {} instead of {} samples", what, Z, N)
    X = np.dot(y, W1.T) + Z.dot(W2.T)
    fail(not np.all(np.isfinite(X)), "{}: {}", what, Z)
    fail(np.max(np.abs(X)) > 1 + TOL, "{}: input outside the hypercube by {}", what, np.max(np.abs(X)) - 1)
    return X


SAMPLERS = [("sample_z", domains.sample_z), ("hit_and_run_z", domains.hit_and_run_z),
            ("rejection_sampling_z", domains.rejection_sampling_z), ("random_walk_z", domains.random_walk_z)]


def drive(ctx, gen, desc):
    while True:
        with ctx.case(desc):
            if next(gen, None) is None:
                return


def whole(ctx, m, n, Ns, bound, free):
    """All samplers under whole-draw patterns."""
    for nm, W1, W2 in itertools.chain(bases(m, n), flat(m, n)):
        for pos, y in where(W1):
            for sname, f in SAMPLERS:
                for N in Ns:
                    def run(ch):
                        with scripted(patterns(ch, free=free)):
                            Z = f(N, y, W1, W2)
                        if sname == "rejection_sampling_z" and Z is None:
                            ctx.count("transitions")
                            ctx.state("none", nm, pos)
                            return
                        inside(Z, N, y, W1, W2, "{} answers {}".format(sname, [c for _, c, _, _ in ch.trace]))
                        ctx.count("transitions")
                        ctx.state(sname, nm, pos, N, Z)
                    drive(ctx, explore(run, bound=bound, stats=ctx.stats),
                          {"m": m, "n": n, "basis": nm, "y": pos, "sampler": sname, "N": N})
        ctx.sample({"W1": W1, "y": y, "N": N})


def hit_elements(ctx, m, n, N):
    """Hit-and-run: every direction out of a set and every position along it, for all N steps."""
    k = m - n
    dirs = [v for v in itertools.product((-1.0, 0.0, 1.0), repeat=k) if any(v)]
    if k == 1:
        dirs = [(1.0,), (-1e-8,), (-5.0,)]
    if k >= 3:
        dirs = dirs[::3] + [tuple(1e-9 * i + 1 for i in range(k))]
    pos = [0.5, 0.0, ALMOST1]
    for nm, W1, W2 in itertools.chain(bases(m, n), flat(m, n)):
        D = dirs + [v for v in (tuple(np.round(W2[0], 12)), tuple(-W2[0])) if k > 1 and np.linalg.norm(v) > 1e-3]
        for pn, y in where(W1):
            def run(ch):
                calls = itertools.count()

                def policy(kind, params, shape):
                    if kind == "normal":
                        out = [D[ch.choose(len(D), "direction") if next(calls) < N else 0]
                               for _ in range(int(np.prod(shape)) // k)]
                        return np.array(out)
                    return np.array([pos[ch.choose(3, "position")] for _ in range(int(np.prod(shape)))])
                with scripted(policy):
                    Z = domains.hit_and_run_z(N, y, W1, W2)
                inside(Z, N, y, W1, W2, "hit_and_run_z answers {}".format([c for _, c, _, _ in ch.trace]))
                ctx.state(nm, pn, Z)
            drive(ctx, explore(run, stats=ctx.stats), {"m": m, "n": n, "basis": nm, "y": pn, "N": N, "steps": "all"})


def walk_elements(ctx, m, n, N, bound):
    """Random walk: proposals small, to each side, and far outside."""
    k = m - n
    P = [np.zeros(k), np.full(k, 0.3), np.full(k, -0.3), np.full(k, 30.0), 3.0 * np.eye(k)[0], -3.0 * np.eye(k)[-1]]
    for nm, W1, W2 in itertools.chain(bases(m, n), flat(m, n)):
        for pn, y in where(W1):
            def run(ch):
                def policy(kind, params, shape):
                    return np.array([P[ch.choose(len(P), "step")] for _ in range(int(np.prod(shape)) // k)])
                with scripted(policy):
                    Z = domains.random_walk_z(N, y, W1, W2)
                inside(Z, N, y, W1, W2, "random_walk_z answers {}".format([c for _, c, _, _ in ch.trace]))
                ctx.state(nm, pn, Z)
            drive(ctx, explore(run, bound=bound, stats=ctx.stats),
                  {"m": m, "n": n, "basis": nm, "y": pn, "N": N, "steps": "deviations"})


def box(y, W1, W2):
    """Smallest box around the inactive variables allowed for y."""
    s = W1.dot(y)
    k = W2.shape[1]
    A, b = np.vstack((W2, -W2)), np.concatenate((1 - s, 1 + s))
    lo, hi = np.zeros(k), np.zeros(k)
    for i in range(k):
        c = np.zeros(k)
        c[i] = 1
        lo[i] = linprog(c, A, b, bounds=[(None, None)] * k).fun
        hi[i] = -linprog(-c, A, b, bounds=[(None, None)] * k).fun
    return lo, hi


def rejection(ctx, m, n, Ns):
    """Rejection: exactly k of the proposals inside, for k around N, in every arrangement from a set."""
    k = m - n
    for nm, W1, W2 in itertools.chain(bases(m, n), flat(m, n)):
        for pn, y in where(W1):
            if "vertex" in pn and pn != "near vertex" or pn == "facet":
                continue
            with ctx.case({"basis": nm, "y": pn, "reference": "box"}):
                lo, hi = box(y, W1, W2)
                grid = 0.5 + 0.4999 * data.weyl(4000, k, 3.0)
                Zg = lo + grid * (hi - lo)
                sl = 1 - np.max(np.abs(W1.dot(y) + Zg.dot(W2.T)), axis=1)
                good, bad = grid[sl > 1e-6], grid[sl < -1e-6]
            if len(good) < 3:
                continue
            if k == 1 or len(bad) < 3:
                bad = None
            for N in Ns:
                tot = 50 * N
                for ins in sorted({0, 1, N - 1, N, N + 1, 2 * N, tot}):
                    if bad is None and ins != tot:
                        continue
                    for arr in ("first", "last", "spread"):
                        order = np.zeros(tot, bool)
                        if arr == "first":
                            order[:ins] = True
                        elif arr == "last":
                            order[tot - ins:] = True
                        else:
                            order[(np.arange(ins) * tot) // max(ins, 1)] = True
                        U = np.empty((tot, k))
                        gi = np.arange(ins) % len(good)
                        U[order] = good[gi]
                        if bad is not None:
                            U[~order] = bad[np.arange(tot - ins) % len(bad)]
                        for sname, f in SAMPLERS[:1] + SAMPLERS[2:3]:
                            with ctx.case({"basis": nm, "y": pn, "N": N, "inside": ins, "arranged": arr,
                                           "sampler": sname}):
                                ctx.count("transitions")
                                first = [True]

                                def policy(kind, params, shape):
                                    if kind == "uniform" and tuple(shape) == U.shape and first[0]:
                                        first[0] = False
                                        return U
                                    return fixed()(kind, params, shape)
                                with scripted(policy) as c:
                                    Z = f(N, y, W1, W2)
                                    shapes = [(a, tuple(sh)) for a, _, sh, _ in c.log]
                                if shapes[:1] != [("uniform", U.shape)]:
                                    # other proposals than expected: only the general guarantee
                                    if Z is not None:
                                        inside(Z, N, y, W1, W2, sname)
                                    else:
                                        fail(sname == "sample_z", "sample_z returned None")
                                    continue
                                if ins >= N:
                                    inside(Z, N, y, W1, W2, sname)
                                    close(Z, (lo + U * (hi - lo))[order][:N], 1e-7, what="proposals inside, in order")
                                elif sname == "sample_z":
                                    inside(Z, N, y, W1, W2, sname)
                                else:
                                    fail(Z is not None, "{} samples from {} proposals inside", N, ins)
                                ctx.state(nm, pn, N, ins, arr, sname, Z if Z is not None else 0)


def many(ctx, m, n, Ns):
    """Numbers of samples and inputs at which a sampler could change its method."""
    for nm, W1, W2 in itertools.chain(bases(m, n), flat(m, n)):
        if m > 8:
            pts = [("center", np.zeros(n)), ("inside", (0.8 * data.weyl(1, m, 5.0)).dot(W1)[0]),
                   ("close to the boundary", (0.97 * np.sign(W1[:, 0])).dot(W1))]
        else:
            pts = list(where(W1))
        for pos, y in pts:
            for sname, f in SAMPLERS:
                for N in Ns:
                    if sname == "random_walk_z" and N > 300:
                        continue
                    for ends in (False, True) if N <= 101 else (False,):
                        with ctx.case({"m": m, "n": n, "basis": nm, "y": pos, "sampler": sname, "N": N, "ends": ends}):
                            at = itertools.count(1)

                            def policy(kind, params, shape, base=fixed()):
                                if kind == "normal" and ends:      # another direction at every step
                                    k = int(np.prod(shape))
                                    return np.resize(data.weyl(next(at) % 97 + k, 1, 3.0)[-k:, 0], shape)
                                if kind == "uniform" and ends and np.prod(shape) == 1:
                                    return np.resize(STEPS[next(at) % len(STEPS)], shape)
                                return base(kind, params, shape)
                            with scripted(policy):
                                Z = f(N, y, W1, W2)
                            if sname == "rejection_sampling_z" and Z is None:
                                continue
                            inside(Z, N, y, W1, W2, sname)
                            ctx.count("transitions", N)
                            ctx.state(sname, nm, pos, N, Z[-1])


def jobs(tier):
    big = tier == "thorough"
    J = []
    for m in (2, 3, 4) + ((5, 6) if big else (5,)):
        for n in range(1, m):
            J.append(Job("patterns m={} n={}".format(m, n), whole, m, n, (1, 2, 4) if big or m < 5 else (3,),
                         2 if big else 1, 5 if big else 4))
            J.append(Job("rejection m={} n={}".format(m, n), rejection, m, n, (1, 2, 3, 5, 8)))
    for m, n in ((2, 1), (3, 1), (3, 2), (4, 2), (5, 3)):
        J.append(Job("many m={} n={}".format(m, n), many, m, n, (7, 10, 11, 16, 25, 33, 50, 51, 64, 100, 101, 128, 129, 200, 257, 500, 1000, 1001)))
    for m, n in ((6, 1), (6, 5), (8, 2), (10, 1), (10, 9), (11, 3), (16, 2), (20, 1), (25, 3), (33, 2)):
        J.append(Job("many m={} n={}".format(m, n), many, m, n, (1, 5, 50, 101)))
    for m, n, N in ((2, 1, 3), (3, 2, 3), (3, 1, 2), (4, 2, 2), (4, 3, 3), (4, 1, 1)) + (
            ((2, 1, 4), (3, 1, 3), (4, 1, 2), (5, 2, 2)) if big else ()):
        J.append(Job("hit and run m={} n={} N={}".format(m, n, N), hit_elements, m, n, N))
    for m, n, N, b in ((2, 1, 1, 2), (3, 1, 1, 2), (3, 2, 2, 1), (4, 2, 1, 2)) + (
            ((2, 1, 2, 3), (3, 1, 2, 3), (4, 2, 2, 2), (4, 1, 2, 2)) if big else ()):
        J.append(Job("random walk m={} n={} N={}".format(m, n, N), walk_elements, m, n, N, b))
    J += history.jobs("C09", tier)
    return J
