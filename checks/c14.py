"""C14: training through an interface fits the conditional averages."""
import itertools
from fractions import Fraction as F

import numpy as np

import data
import history
from core import Job, close, fail, same, scripted
from c12 import NOR, UNI, NoDesign, ask, the_map
from policies import fixed
from refs import Zonotope
from sut import make_subspaces, misc, response_surfaces, rs, simrunners

LEVEL = "model_checking"
RULE = ("maps of both kinds x dimensions x numbers of design points and samples x answer patterns x tables of simulation "
        "answers, with recording surfaces in place of the trained one; all surjective arrangements of indices for the "
        "conditional averages; all short histories of trainings and changes of partition")
ASSUMPTIONS = ["the maximin design may report that SLSQP failed; such a training is not judged"]


class Stub(rs.ResponseSurface):
    def train(self, X, f):
        self.got = self.__dict__.get("got", []) + [(np.array(X), np.array(f), None, None)]

    def predict(self, X, compgrad=False):
        return np.zeros((X.shape[0], 1)), np.zeros(X.shape)


class RadialStub(rs.RadialBasisApproximation):
    def train(self, X, f, v=None, e=None):
        self.got = self.__dict__.get("got", []) + [(np.array(X), np.array(f), False if v is None else np.array(v),
                                                    e if e is None else np.array(e))]


ANSWERS = [("table", lambda i, x: float(data.weyl(1, 1, 11.0 + i)[0, 0])), ("number", lambda i, x: float(i)),
           ("sum", lambda i, x: float(np.sum(x))), ("constant", lambda i, x: 2.5),
           ("offset", lambda i, x: 1e6 + (i * i % 7)), ("one", lambda i, x: float(i == 3)),
           ("tiny", lambda i, x: 1e-9 * float(data.weyl(1, 1, 11.0 + i)[0, 0])), ("huge", lambda i, x: -1e12 * (1.0 + i % 5))]


def check_training(ctx, kind, mp, N, NMC, answer, runner, got, calls, default=False):
    W1 = mp.domain.subspaces.W1
    m, n = W1.shape
    Y, f, v, e = got
    K = Y.shape[0]
    fail(v is False, "trained without the variances")
    fail(Y.shape != (K, n) or f.shape != (K, 1), "trained with shapes {} {}", Y.shape, f.shape)
    P = np.vstack([c for c, _ in calls])
    vals = np.array([u for _, u in calls], float)
    sc = float(np.max(np.abs(vals))) or 1.0
    fail(any(c.shape != (1, m) for c, _ in calls), "simulation called with shape {}", calls[0][0].shape)
    nv = 0
    left = set(range(len(P)))
    if kind == "bounded":
        corners = (np.array(list(Zonotope(W1).signs)) if n > 1 else
                   np.vstack((np.where(W1[:, 0] < 0, -1, 1), np.where(W1[:, 0] < 0, 1, -1)))).astype(float)
        nv = len(corners)
        for c in corners:
            row = np.nonzero(np.max(np.abs(Y - c.dot(W1)), axis=1) < 1e-9)[0]
            fail(len(row) != 1, "vertex {} is {} times among the design points", c.dot(W1), len(row))
            hit = [k for k in left if np.array_equal(P[k], c)]
            fail(len(hit) != 1, "{} simulations at corner {}", len(hit), c)
            left.discard(hit[0])
            close(f[row[0], 0] / sc, vals[hit[0]] / sc, 1e-14, what="value at a vertex")
            if v is not None:
                close(v[row[0], 0], 0.0, 0, 0, what="variance at a vertex")
    fail(len(P) != (K - nv) * NMC + nv, "{} simulations for {} design points and {} vertices", len(P), K - nv, nv)
    if kind == "bounded":
        fail(np.max(np.abs(P)) > 1 + 1e-6, "simulation outside the hypercube")
    A = P.dot(W1)
    d = Y[:, None, :] - Y[None, :, :]
    fail(K > 1 and np.min(np.sqrt(np.sum(d * d, axis=2)) + 9 * np.eye(K)) < 1e-6, "design points repeated: {}", Y)
    left = sorted(left)
    at_vertex = set()
    if nv:
        V = corners.dot(W1)
        at_vertex = {i for i in range(K) if np.min(np.max(np.abs(V - Y[i]), axis=1)) < 1e-9}
    used = 0
    for i in range(K):
        if i in at_vertex:
            continue
        mine = [k for k in left if np.max(np.abs(A[k] - Y[i])) < 1e-8]
        fail(len(mine) != NMC, "design point {}: {} simulations instead of {}", i, len(mine), NMC)
        used += NMC
        a = sum(F(vals[k]) for k in mine) / NMC
        var = sum((F(vals[k]) - a) ** 2 for k in mine) / NMC
        close(f[i, 0] / sc, float(a) / sc, 1e-13, what="average at design point {}".format(i))
        if v is not None:
            close(v.reshape(K)[i] / sc ** 2, float(var) / sc ** 2, 1e-9, 1e-16, what="variance at design point {}".format(i))
    fail(used != len(left), "{} simulations belong to no design point", len(left) - used)
    if v is not None:
        close(np.asarray(e).ravel(), np.asarray(mp.domain.subspaces.eigenvals).ravel(), 0, 0, what="eigenvalues")
    return Y


def recorder(answer):
    calls = []

    def fun(x):
        u = answer(len(calls), x)
        calls.append((np.array(x), u))
        return u
    return fun, calls


def trainings(ctx, kind, m, n, Ns, NMCs):
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    mp = the_map(kind, s)
    P = [(a, UNI[0]) for a in NOR] if kind == "unbounded" else [(NOR[0], b) for b in UNI] + [(NOR[1], UNI[1])]
    for N, NMC, (an, answer), cls in itertools.product(Ns, NMCs, ANSWERS, (Stub, RadialStub)):
        for pi, pats in enumerate(P):
            if NMC > 5 and pi > 1:
                continue
            with ctx.case({"map": kind, "m": m, "n": n, "N": N, "NMC": NMC, "answers": an, "surface": cls.__name__,
                           "random": [p.__name__ for p in pats]}):
                fun, calls = recorder(answer)
                st = cls()
                r = response_surfaces.ActiveSubspaceResponseSurface(mp, st)
                runner = (N + NMC + pi) % 2
                try:
                    with scripted(fixed(*pats)):
                        ask(r.train_with_interface, simrunners.SimulationRunner(fun) if runner else fun, N, NMC=NMC)
                except NoDesign:
                    ctx.count("no_design")
                    continue
                fail(r.respsurf is not st, "the surface was replaced")
                fail(len(st.got) != 1, "trained {} times", len(st.got))
                Y = check_training(ctx, kind, mp, N, NMC, an, runner, st.got[0], calls)
                with scripted(fixed(*pats)):
                    Yd, Xd, ind = response_surfaces.av_design(mp, N, NMC=NMC)
                close(Y[:len(Yd)], Yd, 1e-12, what="design points")
                ctx.state(kind, m, n, N, NMC, an, st.got[0][1])
                ctx.count("transitions", len(calls))
    with ctx.case({"map": kind, "m": m, "n": n, "NMC": "default"}):
        fun, calls = recorder(ANSWERS[0][1])
        st = RadialStub()
        r = response_surfaces.ActiveSubspaceResponseSurface(mp, st)
        try:
            with scripted(fixed()):
                ask(r.train_with_interface, fun, Ns[-1])
            check_training(ctx, kind, mp, Ns[-1], 10, "table", False, st.got[0], calls)
        except NoDesign:
            pass
    ctx.sample({"map": kind, "m": m, "n": n, "N": Ns[-1], "W1": s.W1})


def histories(ctx, kind, m, depth):
    """Surfaces trained repeatedly, with the partition changed in between."""
    for hist in itertools.product(range(1, m), (2, 3), repeat=depth):
        with ctx.case({"map": kind, "m": m, "(n, NMC) in turn": hist}):
            s = make_subspaces(data.ortho(m, 0.5), n=1)
            mp = the_map(kind, s)
            st = RadialStub()
            r = response_surfaces.ActiveSubspaceResponseSurface(mp, st)
            for n, NMC in zip(hist[::2], hist[1::2]):
                s.partition(n)
                if kind == "bounded":
                    np.random.seed(1)
                    mp.domain.compute_boundary()
                fun, calls = recorder(ANSWERS[0][1])
                try:
                    with scripted(fixed()):
                        ask(r.train_with_interface, fun, 4 if n < 3 else 8, NMC=NMC)
                except NoDesign:
                    continue
                check_training(ctx, kind, mp, 4, NMC, "table", False, st.got[-1], calls)
                ctx.count("transitions", len(calls))
                ctx.state(kind, hist, n, st.got[-1][1])


def real(ctx, kind, m, n, N):
    """The trained radial basis surface is the one trained with the recorded averages and variances."""
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    mp = the_map(kind, s)
    for an, answer in ANSWERS[:3]:
        for deg in (0, 1):
            with ctx.case({"map": kind, "m": m, "n": n, "N": N, "answers": an, "degree": deg}):
                st = RadialStub(N=deg)
                for surf in (st, rs.RadialBasisApproximation(N=deg)):
                    fun, calls = recorder(answer)
                    r = response_surfaces.ActiveSubspaceResponseSurface(mp, surf)
                    with scripted(fixed()):
                        r.train_with_interface(fun, N, NMC=4)
                Y, f, v, e = st.got[0]
                q = rs.RadialBasisApproximation(N=deg)
                q.train(Y, f, v=v, e=e)
                T = 0.7 * Y
                close(r.predict_av(T)[0], q.predict(T)[0], 1e-8, what="surface trained on the averages")
                ctx.state(kind, m, n, an, deg, r.predict_av(T)[0])
                ctx.count("transitions")


def arrangements(ctx, M, k, dtype):
    vals = [("table", data.weyl(M, 1, 3.0)), ("integers", (np.arange(M) ** 2 % 5).reshape(M, 1)),
            ("offset", 1e6 + (np.arange(M) % 3).reshape(M, 1)), ("large one", np.where(np.arange(M) == 1, 1e8, 1.0).reshape(M, 1)),
            ("tiny", 1e-9 * data.weyl(M, 1, 4.0)), ("huge", 1e12 * data.weyl(M, 1, 4.0))]
    for ind in itertools.product(range(k), repeat=M):
        if len(set(ind)) != k:
            continue
        I = np.array(ind, dtype=dtype).reshape(M, 1)
        for nm, f in vals:
            with ctx.case({"indices": ind, "values": nm, "type": dtype.__name__}):
                keep = I.copy(), f.copy()
                sc = float(np.max(np.abs(f))) or 1.0
                E, V = misc.conditional_expectations(f, I)
                same(I, keep[0], "indices")
                same(f, keep[1], "values")
                fail(E.shape != (k, 1) or V.shape != (k, 1), "shapes {} {}", E.shape, V.shape)
                for j in range(k):
                    mine = [F(float(f[i, 0])) for i in range(M) if ind[i] == j]
                    a = sum(mine) / len(mine)
                    close(E[j, 0] / sc, float(a) / sc, 1e-13, what="average {}".format(j))
                    close(V[j, 0] / sc ** 2, float(sum((u - a) ** 2 for u in mine) / len(mine)) / sc ** 2, 1e-9, 1e-16, what="variance {}".format(j))
                ctx.state(nm, E, V)
                ctx.count("transitions")


def many_groups(ctx, sizes):
    """Large tables: many groups, large groups, groups of different sizes, in every kind of order."""
    for M, k in sizes:
        if k > M:
            continue
        i = np.arange(M)
        orders = [("in turn", i % k), ("sorted", np.sort(i % k)), ("backward", np.sort(i % k)[::-1]),
                  ("first is large", np.maximum(i - (M - k), 0)), ("last is large", np.minimum(i, k - 1)),
                  ("mixed", np.argsort(data.weyl(M, 1, 6.0)[:, 0]) % k)]
        for (no, I), (nv, f) in itertools.product(orders, (
                ("table", data.weyl(M, 1, 3.0)), ("growing", (1.0 + i).reshape(M, 1)), ("last", (i == M - 1).astype(float).reshape(M, 1)),
                ("offset", 1e5 + data.weyl(M, 1, 3.0)), ("tiny", 1e-9 * data.weyl(M, 1, 3.0)), ("huge", 1e12 * data.weyl(M, 1, 3.0)))):
            with ctx.case({"values": M, "groups": k, "order": no, "f": nv}):
                E, V = misc.conditional_expectations(f, I.reshape(M, 1).astype(float))
                fail(E.shape != (k, 1) or V.shape != (k, 1), "shapes {} {}", E.shape, V.shape)
                cnt = np.bincount(I, minlength=k)
                fl = f[:, 0].astype(np.longdouble)
                S = np.zeros(k, np.longdouble)
                np.add.at(S, I, fl)
                a = S / cnt
                Q = np.zeros(k, np.longdouble)
                np.add.at(Q, I, (fl - a[I]) ** 2)
                sc = float(np.max(np.abs(f))) or 1.0
                close(E[:, 0] / sc, (a / sc).astype(float), 1e-13, what="averages")
                vs = float(np.max(np.abs(fl - a[I]))) ** 2 + 1e-20 * sc * sc
                fail(np.any(V < 0), "negative variance")
                close(V[:, 0] / vs, (Q / cnt / vs).astype(float), 1e-9, what="variances")
                ctx.state(M, k, no, nv, E[:5])
                ctx.count("transitions", k)


def large_trainings(ctx, kind, m, n, sizes):
    s = make_subspaces(data.ortho(m, 0.5), n=n)
    mp = the_map(kind, s)
    for N, NMC in sizes:
        for an, answer in ANSWERS[:2] + ANSWERS[-2:]:
            with ctx.case({"map": kind, "m": m, "n": n, "N": N, "NMC": NMC, "answers": an}):
                fun, calls = recorder(answer)
                st = RadialStub()
                r = response_surfaces.ActiveSubspaceResponseSurface(mp, st)
                with scripted(fixed(NOR[0], UNI[0])):
                    r.train_with_interface(fun, N, NMC=NMC)
                fail(len(st.got) != 1, "trained {} times", len(st.got))
                check_training(ctx, kind, mp, N, NMC, an, False, st.got[0], calls)
                ctx.state(kind, N, NMC, an, st.got[0][1][:5])
                ctx.count("transitions", len(calls))


def jobs(tier):
    big = tier == "thorough"
    J = []
    for m, n, Ns in ((2, 1, (1, 2, 5)), (3, 1, (3,)), (3, 2, (4, 9, 10)), (4, 3, (8, 27, 30)), (3, 3, (1, 8)), (4, 4, (16,))) + (
            ((5, 2, (4, 25, 49)), (6, 1, (9,))) if big else ()):
        J.append(Job("unbounded m={} n={}".format(m, n), trainings, "unbounded", m, n, Ns, (1, 2, 5)))
    for m, n, Ns in ((2, 1, (1, 2, 5)), (3, 1, (1, 4)), (5, 1, (3,)), (3, 2, (1, 2)), (4, 2, (3,)), (4, 3, (1,))) + (
            ((5, 2, (2, 4)), (5, 3, (2,)), (5, 1, (2, 8))) if big else ()):
        J.append(Job("bounded m={} n={}{}".format(m, n, Ns), trainings, "bounded", m, n, Ns, (1, 2, 5)))
    for kind in ("unbounded", "bounded"):
        J.append(Job("histories {}".format(kind), histories, kind, 3, 3 if big else 2))
        J.append(Job("histories {} m=4".format(kind), histories, kind, 4, 2 if big else 1))
        J.append(Job("surfaces {}".format(kind), real, kind, 3, 1, 7))
    J.append(Job("surfaces unbounded n=2", real, "unbounded", 3, 2, 9))
    J.append(Job("surfaces bounded n=2", real, "bounded", 3, 2, 2))
    sizes = [(M, k) for M in data.BIGM for k in (1, 2, 7, 10, 33, 100, 101, 128, 257, 500, 1001, 2000) if k * M < 3000000]
    sizes += [(k, k) for k in (33, 64, 100, 129, 257, 501)]
    for i in range(4):
        J.append(Job("many groups {}".format(i), many_groups, sizes[i::4]))
    J.append(Job("large unbounded n=1", large_trainings, "unbounded", 3, 1, [(20, 2), (33, 1), (40, 3), (3, 33), (2, 100), (2, 101),
                                                                             (1, 257), (1, 1001), (5, 50), (16, 17)]))
    J.append(Job("large unbounded n=2", large_trainings, "unbounded", 4, 2, [(49, 2), (121, 1), (144, 3), (4, 101)]))
    J.append(Job("large unbounded m=12", large_trainings, "unbounded", 12, 2, [(9, 3), (25, 2)]))
    J.append(Job("large bounded n=1", large_trainings, "bounded", 3, 1, [(20, 2), (33, 1), (3, 33), (2, 100), (1, 129)]))
    J.append(Job("large bounded n=2", large_trainings, "bounded", 3, 2, [(2, 40)]))
    for M, k in ((1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (4, 3), (5, 3), (6, 2), (6, 3), (4, 4), (5, 4)) + (
            ((7, 3), (6, 4), (8, 2)) if big else ()):
        J.append(Job("arrangements {} on {}".format(M, k), arrangements, M, k, float))
        if M < 6:
            J.append(Job("arrangements {} on {} int".format(M, k), arrangements, M, k, int))
    J += history.jobs("C14", tier)
    return J
