"""C06: the chosen dimension attains the documented criterion."""
import itertools

import numpy as np

import data
import history
from core import Job, close, explore, fail, index_answers, raises, same, scripted
from sut import seeded, subspaces

LEVEL = "model_checking"
RULE = ("all nonincreasing eigenvalue vectors over a small alphabet, times all subspace error / variability vectors; "
        "compute on catalogue data with every scripted resample of a small set, criterion recomputed from the "
        "documented formulas; ties may be resolved either way")
ASSUMPTIONS = ["the replicate estimates are judged by C04"]


def spectra(m, alpha):
    return [v for v in itertools.product(sorted(alpha, reverse=True), repeat=m) if all(
        a >= b for a, b in zip(v, v[1:]))]


def argopt(c, n, best, what, first=1):
    c = np.asarray(c, float).ravel()
    fail(not isinstance(n, (int, np.integer)), "{}: dimension {!r} is not an integer", what, n)
    fail(not first <= n <= first + len(c) - 1, "{}: dimension {} outside 1..{}", what, n, first + len(c) - 1)
    v = c[n - first]
    b = best(c)
    fail(abs(v - b) > 1e-10 * max(abs(b), np.max(np.abs(c))), "{}: dimension {} has {} but {} is attained: {}", what, n,
         v, b, c)


def ref_evg(e):
    e = np.asarray(e).ravel()
    return np.array([abs(e[i] - e[i + 1]) for i in range(len(e) - 1)])


def ref_rs(e, s):
    e, s = np.asarray(e).ravel(), np.asarray(s).ravel()
    return np.array([np.sqrt(sum(e[:k])) * s[k - 1] + np.sqrt(sum(e[k:])) for k in range(1, len(e))])


def ref_li(e, F):
    e, F = np.asarray(e).ravel(), np.asarray(F).ravel()
    return F + e / np.sum(e)


def gaps(ctx, m, alpha):
    for v in spectra(m, alpha):
        e = np.array(v, float).reshape(m, 1)
        with ctx.case({"e": v}):
            n, c = subspaces.eig_partition(e)
            close(np.ravel(c), ref_evg(e), 1e-12, what="gaps")
            argopt(ref_evg(e), n, np.max, "largest gap")
            ctx.state("EVG", n, ref_evg(e))
            ctx.count("transitions")


def errors(ctx, m, alpha, serr):
    for v in spectra(m, alpha):
        e = np.array(v, float).reshape(m, 1)
        for s in itertools.product(serr, repeat=m - 1):
            with ctx.case({"e": v, "subspace errors": s}):
                n, c = subspaces.errbnd_partition(e, np.array(s, float).reshape(m - 1, 1))
                close(np.ravel(c), ref_rs(e, s), 1e-12, what="error estimate")
                argopt(ref_rs(e, s), n, np.min, "smallest error estimate")
                ctx.state("RS", n, ref_rs(e, s))
                ctx.count("transitions")


def ladle(ctx, m, alpha, F):
    for v in spectra(m, alpha):
        if sum(v) == 0:
            continue
        e = np.array(v, float).reshape(m, 1)
        for s in itertools.product(F, repeat=m - 1):
            with ctx.case({"e": v, "variability": s}):
                fF = np.array((0.0,) + s).reshape(m, 1)
                n, c = subspaces.ladle_partition(e, fF)
                close(np.ravel(c), ref_li(e, fF), 1e-12, what="criterion")
                argopt(ref_li(e, fF), n, np.min, "smallest criterion")
                ctx.state("LI", n, ref_li(e, fF))
                ctx.count("transitions")


SPECS = ((1, .1, .01), (1, 1, .01), (1, .9, .85), (1, .5, 0), (1, 1, 1), (3, 1, .9, .01), (1, .99, .2, .19),
         (1, .9, .8, .1), (5, 4, 3, 2.9, .1), (1, .5, .4, .3, .2, 0), (1e-6, 1e-7, 1e-9), (1e6, 1e3, 1), (1, 0), (2, 1.9),
         (1, 1e-3, 1e-6, 1e-9, 1e-12), (4, 3.9, 3.8, 3.7, 3.6, .1, .05))


def gradient_data(e, copies):
    """Gradients of which C has eigenvalues e, with noise-free copies so that resamples vary."""
    m = len(e)
    Q = data.ortho(m, 0.7)
    base = (Q * np.sqrt(np.array(e) * m)).T
    return np.vstack([base] * copies)


def compute_evg(ctx):
    for e in SPECS:
        m = len(e)
        for copies in (1, 2, 3):
            for nboot in (0, 2):
                with ctx.case({"spectrum": e, "copies": copies, "nboot": nboot}):
                    s = subspaces.Subspaces()
                    seeded(lambda: s.compute(df=gradient_data(e, copies), nboot=nboot))
                    n = s.W1.shape[1]
                    argopt(ref_evg(s.eigenvals), n, np.max, "EVG")
                    close(s.eigenvals[:, 0], np.array(e), 1e-9, what="eigenvalues")
                    fail(s.W2.shape[1] != m - n, "W2 has {} columns", s.W2.shape[1])
                    ctx.state("EVG", e, n)
                    ctx.count("transitions")


def resamples(M):
    """A family of index vectors: all of them for small M, structured ones otherwise."""
    if M ** M <= 300:
        return list(itertools.product(range(M), repeat=M))
    I = list(range(M))
    out = [I, I[::-1], [0] * M, [M - 1] * M, [i // 2 * 2 for i in I], [i % 2 for i in I], [i // 2 for i in I]]
    for k in range(M):
        out.append([i if i != k else (k + 1) % M for i in I])
        out.append([i % (k + 1) for i in I])
        out.append([max(i, k) for i in I])
    return out


def li_f(W, reps):
    m = W.shape[0]
    f = np.zeros(m)
    for k in range(1, m):
        f[k] = np.mean([1 - abs(np.linalg.det(W[:, :k].T.dot(W0[:, :k]))) for W0 in reps])
    return f / np.sum(f) if np.sum(f) > 0 else None


def boot(ctx, e, copies, ptype, pairs):
    m = len(e)
    G = gradient_data(e, copies) + 0.05 * np.sqrt(e[0]) * data.weyl(m * copies, m, 3.0)
    M = G.shape[0]
    w = np.ones((M, 1)) / M
    R = resamples(M)
    seqs = [(r, r) for r in R] + ([(R[i], R[j]) for i in range(min(len(R), 12)) for j in range(min(len(R), 12))])
    for a, b in seqs:
        with ctx.case({"spectrum": e, "copies": copies, "ptype": ptype, "resamples": [list(a), list(b)]}):
            it = iter(list(a) + list(b))
            s = subspaces.Subspaces()
            with scripted(lambda kind, params, shape: index_answers(
                    kind, params, [next(it) for _ in range(int(np.prod(shape)))], M)):
                s.compute(df=G, ptype=ptype, nboot=2)
            n = s.W1.shape[1]
            if ptype == "EVG":
                argopt(ref_evg(s.eigenvals), n, np.max, "EVG")
            elif ptype == "RS":
                argopt(ref_rs(s.eigenvals, s.sub_br[:, 1]), n, np.min, "RS")
            else:
                est = [subspaces.active_subspace(G[list(r)], w[list(r)]) for r in (a, b)]
                # variability of subspaces is compared where the replicate determines them
                det = all(np.all(np.diff(-x[0].ravel()) > 1e-7 * x[0][0, 0]) for x in est)
                F = li_f(s.eigenvecs, [x[1] for x in est])
                fail(not 1 <= n <= m, "LI: dimension {}", n)
                if det and F is not None and np.sum(F) > 0 and max(li_raw(s.eigenvecs, est)) > 1e-7:
                    c = ref_li(s.eigenvals, F)
                    fail(c[n - 1] > np.min(c) + 1e-7, "LI: dimension {} has {} but {} is attained: {}", n, c[n - 1],
                         np.min(c), c)
                    ctx.count("LI compared")
            ctx.state(ptype, e, n, s.sub_br)
            ctx.count("transitions")


def li_raw(W, est):
    m = W.shape[0]
    return [np.mean([1 - abs(np.linalg.det(W[:, :k].T.dot(x[1][:, :k]))) for x in est]) for k in range(1, m)]


def kinds(ctx):
    """The criterion is applied to the estimate of every subspace type."""
    for M, m in ((12, 2), (24, 3), (40, 4)):
        X = data.weyl(M, m, 0.5)
        t = X.dot(2.0 ** -np.arange(m))
        f = (np.exp(t) + 0.3 * X[:, 0] * X[:, -1]).reshape(M, 1)
        for kind in ("OLS", "QPHD", "OPG", "AS"):
            for ptype in ("EVG", "RS", "LI"):
                for nboot in (0, 1, 5):
                    with ctx.case({"type": kind, "ptype": ptype, "nboot": nboot, "m": m}):
                        s = subspaces.Subspaces()
                        go = lambda: seeded(lambda: s.compute(X=X, f=f, df=np.exp(t)[:, None] * 2.0 ** -np.arange(m) +
                                                              0.3 * X if kind == "AS" else None,
                                                              sstype=kind, ptype=ptype, nboot=nboot))
                        if nboot == 0 and ptype != "EVG":
                            raises(go, "{} without bootstrap".format(ptype))
                            fail(s.eigenvals is not None, "results after a refused compute")
                            continue
                        go()
                        n = s.W1.shape[1]
                        if ptype == "EVG":
                            argopt(ref_evg(s.eigenvals), n, np.max, "EVG")
                        elif ptype == "RS":
                            argopt(ref_rs(s.eigenvals, s.sub_br[:, 1]), n, np.min, "RS")
                        fail(not 1 <= n <= m, "{}: dimension {}", ptype, n)
                        ctx.state(kind, ptype, n, m)
                        ctx.count("transitions")


def wide(ctx, dims):
    """Many inputs: the best dimension at every place, with small and large margins, for all three criteria."""
    for m in dims:
        k = np.arange(m)
        flat = [np.ones(m), 2.0 - k / m, (k[::-1] + 1.0), 1.5 ** -k.astype(float)]
        for fi, base in enumerate(flat):
            for at in range(m - 1):
                for gap in (1e-3, 0.3, 5.0):
                    e = (base + np.where(k <= at, gap, 0.0)).reshape(m, 1)
                    with ctx.case({"m": m, "base": fi, "gap after": at + 1, "size": gap}):
                        n, c = subspaces.eig_partition(e)
                        close(np.ravel(c), ref_evg(e), 1e-12, what="gaps")
                        argopt(ref_evg(e), n, np.max, "largest gap")
                        s = np.full((m - 1, 1), 0.7)
                        s[at] = 0.7 - min(gap, 0.6)
                        n2, c = subspaces.errbnd_partition(e, s)
                        close(np.ravel(c), ref_rs(e, s), 1e-12, what="error estimate")
                        argopt(ref_rs(e, s), n2, np.min, "smallest error estimate")
                        F = np.full((m, 1), 1.0 / (m - 1))
                        F[0] = 0
                        F[at + 1] *= 0.01
                        n3, c = subspaces.ladle_partition(e, F)
                        close(np.ravel(c), ref_li(e, F), 1e-12, what="criterion")
                        argopt(ref_li(e, F), n3, np.min, "smallest criterion")
                        ctx.state(m, n, n2, n3, fi, gap)
                        ctx.count("transitions", 3)


def scaled(ctx):
    """The criteria at every scale of the eigenvalues."""
    for m in (2, 3, 5, 8):
        for sc in data.SCALES[1:-1]:
            for at in range(m - 1):
                e = sc * (2.0 - np.arange(m) / (2.0 * m) + np.where(np.arange(m) <= at, 0.5, 0.0)).reshape(m, 1)
                with ctx.case({"m": m, "scale": sc, "gap after": at + 1}):
                    n, c = subspaces.eig_partition(e)
                    close(np.ravel(c) / sc, ref_evg(e) / sc, 1e-12, what="gaps")
                    argopt(ref_evg(e), n, np.max, "largest gap")
                    s = 0.9 - 0.8 * (np.arange(m - 1) == at).reshape(m - 1, 1)
                    n, c = subspaces.errbnd_partition(e, s)
                    close(np.ravel(c) / np.sqrt(sc), ref_rs(e, s) / np.sqrt(sc), 1e-12, what="error estimate")
                    argopt(ref_rs(e, s), n, np.min, "smallest error estimate")
                    F = np.r_[0.0, 1.0 + np.arange(m - 1)[::-1]].reshape(m, 1) / 10
                    n, c = subspaces.ladle_partition(e, F)
                    close(np.ravel(c), ref_li(e, F), 1e-12, what="criterion")
                    argopt(ref_li(e, F), n, np.min, "smallest criterion")
                    ctx.state(m, sc, at)
                    ctx.count("transitions", 3)


def wide_compute(ctx, m):
    """compute with many inputs: gap at every place, few and many replicates; also scaled data."""
    for at in range(0, m - 1, 1 if m < 8 else 3):
        e = 1.0 + np.where(np.arange(m) <= at, 1.0, 0.0) * (1 + 0.01 * (m - np.arange(m))) + 0.001 * np.arange(m)[::-1]
        for sc in (1e-12, 1.0, 1e12):
            G = np.sqrt(sc) * (gradient_data(e, 4) + 0.05 * data.weyl(4 * m, m, 3.0))
            M = G.shape[0]
            for ptype, nboot in (("EVG", 0), ("EVG", 3), ("RS", 3), ("RS", 101), ("LI", 2), ("LI", 11)):
                with ctx.case({"m": m, "gap after": at + 1, "scale": sc, "ptype": ptype, "nboot": nboot}):
                    s = subspaces.Subspaces()
                    np.random.seed(7)
                    s.compute(df=G, ptype=ptype, nboot=nboot)
                    n = s.W1.shape[1]
                    fail(not 1 <= n <= m or s.W2.shape[1] != m - n, "{}: dimension {}", ptype, n)
                    if ptype == "EVG":
                        argopt(ref_evg(s.eigenvals), n, np.max, "EVG")
                    elif ptype == "RS":
                        argopt(ref_rs(s.eigenvals, s.sub_br[:, 1]), n, np.min, "RS")
                    ctx.state(m, at, ptype, n)
                    ctx.count("transitions")


def jobs(tier):
    big = tier == "thorough"
    al = (0.0, 1e-9, 0.1, 0.5, 1.0, 1.5, 2.0, 10.0)
    J = [Job("gaps m={}".format(m), gaps, m, al) for m in (2, 3, 4, 5, 6)]
    J += [Job("gaps m={}".format(m), gaps, m, (0.0, 0.5, 1.0, 3.0)) for m in (8, 10)]
    J += [Job("gaps scaled", gaps, 4, (0.0, 1e-12, 1e-10, 3e-10, 1e-6)), Job("gaps large", gaps, 4, (0.0, 1e7, 2e8, 1e12))]
    se = (0.0, 0.2, 0.5, 1.0)
    J += [Job("errors m={}".format(m), errors, m, al, se) for m in (2, 3, 4)]
    J += [Job("errors m=5", errors, 5, (0.0, 0.1, 1.0, 2.0), (0.0, 0.3, 1.0))]
    J += [Job("ladle m={}".format(m), ladle, m, al, (0.0, 0.1, 0.3, 0.6)) for m in (2, 3, 4)]
    J += [Job("ladle m=5", ladle, 5, (0.0, 0.1, 1.0, 2.0), (0.0, 0.2, 0.5))]
    if big:
        J += [Job("gaps m=7", gaps, 7, al), Job("errors m=6", errors, 6, (0.0, 0.1, 1.0, 2.0), (0.0, 0.3, 1.0)),
              Job("ladle m=6", ladle, 6, (0.0, 0.1, 1.0, 2.0), (0.0, 0.2, 0.5)),
              Job("errors m=5 full", errors, 5, al, (0.0, 0.3, 1.0))]
    J.append(Job("wide", wide, data.BIGDIM + (7, 9, 12)))
    J.append(Job("scaled", scaled))
    for m in (5, 8, 11, 17, 26):
        J.append(Job("wide compute m={}".format(m), wide_compute, m))
    J.append(Job("compute EVG", compute_evg))
    J.append(Job("types", kinds))
    for ptype in ("EVG", "RS", "LI"):
        for i, e in enumerate(SPECS):
            for copies in (1, 2) if not big else (1, 2, 3):
                J.append(Job("compute {} {} x{}".format(ptype, i, copies), boot, e, copies, ptype, 0))
    J += history.jobs("C06", tier)
    return J
