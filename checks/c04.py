"""C04: bootstrap ranges are the summary of the re-estimates on resampled data, for every resample."""
import itertools

import numpy as np

import data
import history
from core import Job, close, explore, fail, index_answers, same, scripted
from sut import seeded, subspaces

LEVEL = "model_checking"
RULE = ("every answer of the generator that picks the resample (all M^M index vectors, products over replicates; on "
        "larger data all vectors within two changes of the identity); the observed ranges must be in, and over all "
        "executions exhaust, the set computed from all multisets of samples")
ASSUMPTIONS = ["the estimate on a given data set is judged by C01, C02 and C03",
               "where an eigenvalue of a replicate is repeated, its subspaces are not compared"]


class Data:
    def __init__(self, kind, M, m, wname):
        self.kind, self.M, self.m = kind, M, m
        self.X = data.weyl(M, m, 0.35)
        t = self.X.dot(np.arange(1, m + 1.0))
        self.f = (np.exp(0.3 * t) + 0.2 * self.X[:, 0] ** 2).reshape(M, 1)
        self.df = data.weyl(M, m, 2.2) + 0.3
        self.w = dict(data.weights(M))[wname] if wname else None
        self.wr = self.w if wname else np.ones((M, 1)) / M

    def compute(self, nboot, **kw):
        s = subspaces.Subspaces()
        k = dict(sstype=self.kind, nboot=nboot, weights=self.w)
        if self.kind == "AS":
            k["df"] = self.df
        else:
            k["X"], k["f"] = self.X, self.f
        k.update(kw)
        s.compute(**k)
        return s

    def estimate(self, rows):
        rows = list(rows)
        if self.kind == "AS":
            return subspaces.active_subspace(self.df[rows], self.wr[rows])
        if self.kind == "OLS":
            return subspaces.ols_subspace(self.X[rows], self.f[rows], self.wr[rows])
        return subspaces.qphd_subspace(self.X[rows], self.f[rows], self.wr[rows])


def replicate(d, W, rows):
    """(eigenvalues, distances, distances known) of the estimate on the given rows."""
    e0, W0 = d.estimate(rows)
    m = d.m
    dist = np.array([np.linalg.norm(W[:, :k].T.dot(W0[:, k:]), 2) for k in range(1, m)])
    sc = max(e0[0, 0], 1e-300)
    ok = np.array([(e0[k - 1, 0] - e0[k, 0]) > 1e-6 * sc for k in range(1, m)])
    return e0[:, 0], dist, ok


def summarize(reps):
    E = np.array([r[0] for r in reps])
    D = np.array([r[1] for r in reps])
    ok = np.all([r[2] for r in reps], axis=0)
    e_br = np.vstack((E.min(axis=0), E.max(axis=0))).T
    s_br = np.vstack((D.min(axis=0), D.mean(axis=0), D.max(axis=0))).T
    return e_br, s_br, ok


def matches(s, ref, scale):
    e_br, s_br, ok = ref
    return (np.max(np.abs(s.e_br - e_br)) <= 1e-9 * scale and
            (not ok.any() or np.max(np.abs(s.sub_br[ok] - s_br[ok])) <= 1e-7))


def shape_ok(s, m):
    fail(s.e_br is None or s.e_br.shape != (m, 2), "shape of the eigenvalue ranges {}", getattr(s.e_br, "shape", None))
    fail(s.sub_br.shape != (m - 1, 3), "shape of the subspace errors {}", s.sub_br.shape)
    fail(not np.all(np.isfinite(s.e_br)) or not np.all(np.isfinite(s.sub_br)), "not finite: {} {}", s.e_br, s.sub_br)
    fail(np.any(s.e_br[:, 0] > s.e_br[:, 1]), "ranges reversed {}", s.e_br)
    fail(np.any(s.sub_br < 0) or np.any(s.sub_br > 1 + 1e-9), "distances outside [0,1]: {}", s.sub_br)
    fail(np.any(np.diff(s.sub_br, axis=1) < -1e-12), "min, mean, max not ordered: {}", s.sub_br)


def index_policy(ch, identity, M):
    pos = itertools.count()

    def policy(kind, params, shape):
        out = []
        for _ in range(int(np.prod(shape))):
            c = ch.choose(M, "sample")
            out.append((next(pos) + c) % M if identity else c)
        return index_answers(kind, params, out, M)
    return policy


def enumerate_all(ctx, kind, M, m, wname, nboot, bound=None, extra=None):
    d = Data(kind, M, m, wname)
    base = d.compute(0)
    W = base.eigenvecs
    if bound is None:
        sets = list(itertools.combinations_with_replacement(range(M), M))
    else:
        sets = set()
        for k in range(bound + 1):
            for pos in itertools.combinations(range(M), k):
                for val in itertools.product(range(M), repeat=k):
                    v = list(range(M))
                    for p, x in zip(pos, val):
                        v[p] = x
                    sets.add(tuple(sorted(v)))
        sets = sorted(sets)
    reps = [replicate(d, W, r) for r in sets]
    if bound is None:
        combos = list(itertools.combinations_with_replacement(range(len(sets)), nboot))
    else:
        combos = [(i,) + (sets.index(tuple(range(M))),) * (nboot - 1) for i in range(len(sets))]
    refs = [summarize([reps[i] for i in c]) for c in combos]
    scale = max(float(np.max(np.abs(r[0]))) for r in refs)
    E = np.array([r[0] for r in refs])
    hit = np.zeros(len(refs), bool)
    kw = {}
    if extra == "all data":
        kw = dict(X=d.X, f=d.f, df=d.df)

    def run(ch):
        with scripted(index_policy(ch, bound is not None, M)):
            return d.compute(nboot, **kw)
    gen = explore(run, bound=bound, stats=ctx.stats)
    while True:
        with ctx.case({"type": kind, "M": M, "m": m, "weights": wname, "nboot": nboot, "given": extra}):
            nxt = next(gen, None)
            if nxt is None:
                break
            choices, s = nxt
            shape_ok(s, m)
            same(s.eigenvals, base.eigenvals, "eigenvalues with bootstrap")
            same(s.eigenvecs, base.eigenvecs, "eigenvectors with bootstrap")
            near = np.nonzero(np.max(np.abs(E - s.e_br), axis=(1, 2)) <= 1e-9 * scale)[0]
            good = [i for i in near if matches(s, refs[i], scale)]
            fail(not good, "index answers {}: ranges {} {} belong to no resample", choices, s.e_br, s.sub_br)
            hit[good] = True
            ctx.state(kind, M, m, wname, nboot, s.e_br, s.sub_br)
            ctx.sample({"type": kind, "index answers": choices, "e_br": s.e_br, "sub_br": s.sub_br})
    with ctx.case({"type": kind, "M": M, "m": m, "coverage": "every resample"}):
        fail(not hit.all(), "{} of {} resamples never occur, for instance {}", int((~hit).sum()), len(refs),
             [sets[i] for i in combos[int(np.argmin(hit))]])


def generic(ctx, kind):
    """Larger runs on the real generator: shapes, order, range, original estimate."""
    for M, m in ((12, 2), (20, 3), (30, 5)):
        for nboot in (1, 2, 3, 10, 50):
            for wname in (None, "increasing"):
                with ctx.case({"type": kind, "M": M, "m": m, "nboot": nboot, "weights": wname}):
                    d = Data(kind, M, m, wname) if kind != "OPG" else Data("AS", M, m, wname)
                    d.kind = kind
                    if kind == "QPHD" and m == 5:
                        continue
                    a = seeded(lambda: d.compute(0), 5)
                    b = seeded(lambda: d.compute(nboot), 5)
                    shape_ok(b, m)
                    same(a.eigenvals, b.eigenvals, "eigenvalues with bootstrap")
                    same(a.eigenvecs, b.eigenvecs, "eigenvectors with bootstrap")
                    fail(a.e_br is not None or a.sub_br is not None, "ranges without bootstrap {}", a.e_br)
                    ctx.state(b.e_br, b.sub_br)
                    ctx.count("transitions", nboot)


def constant_resamples(ctx):
    """Resamples of one sample only, and shifts of all samples, for larger data."""
    for M, m in ((7, 2), (25, 3), (64, 4), (129, 2), (257, 3), (501, 2), (1025, 2), (2053, 2), (40, 10), (30, 17)):
        for wname in (None, "increasing", "integers"):
            d = Data("AS", M, m, wname)
            base = d.compute(0)
            for name, f in (("constant 0", lambda i: 0), ("constant last", lambda i: M - 1), ("identity", lambda i: i % M),
                            ("shift", lambda i: (i + 3) % M), ("reversed", lambda i: (M - 1 - i) % M),
                            ("evens", lambda i: 2 * (i % M // 2)), ("two", lambda i: (0, M - 1)[i % 2]), ("late", lambda i: max(i % M, M // 2)),
                            ("almost identity", lambda i: i % M if i % M < M - 1 else 0)):
                for nboot in (1, 2):
                    with ctx.case({"M": M, "m": m, "weights": wname, "resample": name, "nboot": nboot}):
                        it = itertools.count()
                        with scripted(lambda kind, params, shape: index_answers(
                                kind, params, [f(next(it) % M) for _ in range(int(np.prod(shape)))], M)):
                            s = d.compute(nboot)
                        shape_ok(s, m)
                        rows = [f(i) for i in range(M)]
                        ref = summarize([replicate(d, base.eigenvecs, rows)] * nboot)
                        fail(not matches(s, ref, float(np.max(ref[0]))), "ranges {} {} instead of {} {}", s.e_br,
                             s.sub_br, ref[0], ref[1])
                        if name in ("identity", "shift", "reversed"):
                            close(s.e_br[:, 0], base.eigenvals[:, 0], 1e-9, what="eigenvalues of a permutation")
                            fail(np.max(s.sub_br) > 1e-6, "distance of a permutation {}", s.sub_br)
                        ctx.state(M, wname, name, s.e_br)
                        ctx.count("transitions", nboot)


def units(ctx, kind, sizes):
    """Data of every magnitude and with a dominating mean, weights of every magnitude, many samples and inputs."""
    for M, m in sizes:
        d = Data(kind, M, m, "increasing")
        X0, f0, df0 = d.X, d.f, d.df
        for name, sx, ox, sf, of, sw in (("plain", 1, 0, 1, 0, 1), ("outputs 1e-9", 1, 0, 1e-9, 0, 1), ("outputs 1e9", 1, 0, 1e9, 0, 1),
                                         ("dominating mean", 1, 0, 1, 100, 1), ("negative mean", 1, 0, 1, -1000, 1),
                                         ("inputs 1e-3", 1e-3, 0, 1, 0, 1), ("inputs around 5", 1, 5, 1, 0, 1), ("inputs 30", 30, 0, 1, 0, 1),
                                         ("weights 1e-6", 1, 0, 1, 0, 1e-6), ("weights 1e3", 1, 0, 1, 0, 1e3)):
            d.X, d.f, d.df = X0 * sx + ox, f0 * sf + of * sf, df0 * sf + of * sf
            for wn in ("increasing", "none"):
                if wn == "none" and sw != 1:
                    continue
                d.w = None if wn == "none" else sw * (np.arange(M).reshape(M, 1) + 1.0) / M
                d.wr = np.ones((M, 1)) / M if wn == "none" else d.w
                base = d.compute(0)
                last = [i if i < M - 1 else 0 for i in range(M)]
                for rname, rows in (("identity", range(M)), ("reversed", range(M - 1, -1, -1)), ("shift", [(i + 3) % M for i in range(M)]),
                                    ("last replaced", last), ("late", [max(i, M // 4) for i in range(M)])):
                    rows = list(rows)
                    with ctx.case({"type": kind, "M": M, "m": m, "data": name, "weights": wn, "resample": rname}):
                        pos = itertools.count()
                        with scripted(lambda knd, params, shape: index_answers(
                                knd, params, [rows[next(pos) % M] for _ in range(int(np.prod(shape)))], M)):
                            s = d.compute(1)
                        shape_ok(s, m)
                        same(s.eigenvals, base.eigenvals, "eigenvalues with bootstrap")
                        ref = summarize([replicate(d, base.eigenvecs, rows)])
                        scale = float(np.max(ref[0]))
                        tol = 1e-9 if kind == "AS" else 1e-6
                        known = ref[2]
                        bad = np.max(np.abs(s.e_br - ref[0])) > tol * scale
                        bad = bad or (known.any() and np.max(np.abs(s.sub_br[known] - ref[1][known])) > 1e-5)
                        fail(bad, "ranges {} {} instead of {} {}", s.e_br, s.sub_br, ref[0], ref[1])
                        ctx.state(kind, M, m, name, wn, rname, s.e_br)
                        ctx.count("transitions")


def many_replicates(ctx, kind, M, m, sizes):
    """Many replicates: all but one resample are the data themselves, the other one comes at every kind of place."""
    for wname in (None, "increasing"):
        d = Data(kind, M, m, wname)
        base = d.compute(0)
        calm = replicate(d, base.eigenvecs, range(M))
        if kind == "AS":
            odd_rows = {"one sample": [int(np.argmax(np.abs(d.df[:, 0])))] * M,
                        "half": [i // 2 for i in range(M)]}
        else:
            odd_rows = {"shifted half": [i if i % 3 else (i + 1) % M for i in range(M)]}
        for nboot in sizes:
            for oname, rows in odd_rows.items():
                odd = replicate(d, base.eigenvecs, rows)
                for place in sorted(set((0, 1, nboot // 2, nboot - 2, nboot - 1, min(99, nboot - 1), min(100, nboot - 1)))):
                    if place < 0 or place >= nboot:
                        continue
                    with ctx.case({"type": kind, "M": M, "nboot": nboot, "weights": wname, "odd": oname, "place": place}):
                        pos = itertools.count()

                        def answer(r, i):
                            return rows[i] if r == place else i

                        def policy(knd, params, shape):
                            if tuple(shape) == (M, nboot):
                                idx = [answer(r, i) for i in range(M) for r in range(nboot)]
                            else:
                                idx = []
                                for _ in range(int(np.prod(shape))):
                                    p = next(pos)
                                    idx.append(answer(p // M, p % M))
                            return index_answers(knd, params, idx, M)
                        with scripted(policy):
                            s = d.compute(nboot)
                        shape_ok(s, m)
                        E = np.array([calm[0], odd[0]])
                        D = np.array([calm[1], odd[1]])
                        ok = np.logical_and(calm[2], odd[2])
                        e_br = np.vstack((E.min(axis=0), E.max(axis=0))).T
                        s_br = np.vstack((D.min(axis=0), ((nboot - 1) * D[0] + D[1]) / nboot, D.max(axis=0))).T
                        if nboot == 1:
                            e_br = np.vstack((odd[0], odd[0])).T
                            s_br = np.vstack((odd[1], odd[1], odd[1])).T
                        fail(not matches(s, (e_br, s_br, ok), float(np.max(E))), "ranges {} {} instead of {} {}",
                             s.e_br, s.sub_br, e_br, s_br)
                        same(s.eigenvals, base.eigenvals, "eigenvalues with bootstrap")
                        same(s.eigenvecs, base.eigenvecs, "eigenvectors with bootstrap")
                        ctx.state(kind, wname, nboot, place, s.e_br)
                        ctx.count("transitions", nboot)


def jobs(tier):
    big = tier == "thorough"
    J = []
    for wname in (None, "increasing", "integers"):
        J.append(Job("AS 3x2 w={} nboot=1".format(wname), enumerate_all, "AS", 3, 2, wname, 1))
        J.append(Job("AS 3x2 w={} nboot=2".format(wname), enumerate_all, "AS", 3, 2, wname, 2))
        J.append(Job("AS 4x3 w={} nboot=1".format(wname), enumerate_all, "AS", 4, 3, wname, 1))
        J.append(Job("AS 2x2 w={} nboot=3".format(wname), enumerate_all, "AS", 2, 2, wname, 3))
        J.append(Job("OLS 6x2 w={} nboot=1".format(wname), enumerate_all, "OLS", 6, 2, wname, 1, 2))
        J.append(Job("OLS 7x3 w={} nboot=1".format(wname), enumerate_all, "OLS", 7, 3, wname, 1, 2))
        J.append(Job("QPHD 9x2 w={} nboot=1".format(wname), enumerate_all, "QPHD", 9, 2, wname, 1, 2))
    J.append(Job("AS 4x2 with all data", enumerate_all, "AS", 4, 2, "increasing", 1, None, "all data"))
    J.append(Job("OLS 6x2 with all data", enumerate_all, "OLS", 6, 2, "increasing", 1, 2, "all data"))
    J.append(Job("QPHD 9x2 with all data", enumerate_all, "QPHD", 9, 2, "increasing", 1, 1, "all data"))
    J.append(Job("OLS 6x2 nboot=2", enumerate_all, "OLS", 6, 2, None, 2, 1))
    for kind in ("AS", "OLS", "QPHD", "OPG"):
        J.append(Job("generic {}".format(kind), generic, kind))
    J.append(Job("constant resamples", constant_resamples))
    for kind, M, m in (("AS", 6, 3), ("AS", 13, 2), ("OLS", 9, 3), ("QPHD", 9, 2)):
        for sizes in ((1, 2, 3, 9, 10, 11, 33, 50, 64, 99, 100, 101, 102), (129, 200, 257), (500, 501), (1001,)) + (
                ((1025, 2001, 5001),) if big else ()):
            J.append(Job("{} {}x{} nboot={}..".format(kind, M, m, sizes[0]), many_replicates, kind, M, m, sizes))
    J.append(Job("AS units", units, "AS", [(9, 2), (40, 6), (300, 3), (1100, 2)]))
    J.append(Job("OLS units", units, "OLS", [(14, 2), (60, 6), (300, 3), (1100, 2)]))
    J.append(Job("QPHD units", units, "QPHD", [(24, 2), (90, 4), (320, 3), (1100, 2)]))
    if big:
        J.append(Job("AS 5x2 nboot=1", enumerate_all, "AS", 5, 2, "increasing", 1))
        J.append(Job("AS 5x3 nboot=1", enumerate_all, "AS", 5, 3, None, 1))
        J.append(Job("AS 3x3 nboot=3", enumerate_all, "AS", 3, 3, "increasing", 3))
        J.append(Job("AS 2x2 nboot=6", enumerate_all, "AS", 2, 2, "increasing", 6))
        J.append(Job("QPHD 9x2 nboot=1 three changes", enumerate_all, "QPHD", 10, 2, "increasing", 1, 3))
        J.append(Job("OLS 8x3 three changes", enumerate_all, "OLS", 8, 3, "increasing", 1, 3))
    J += history.jobs("C04", tier)
    return J
