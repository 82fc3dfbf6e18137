"""C02: OLS and QPHD subspaces come from the weighted least-squares linear and quadratic models."""
import itertools

import numpy as np

import data
import history
from core import Job, close, fail
from refs import eigen_ok, lsq, multi_indices, monomials
from sut import subspaces

LEVEL = "model_checking"
RULE = ("all outputs over a small alphabet on fixed designs, all integer weight vectors against repeated samples, all "
        "small directions, catalogue of input ranges x sizes x outputs x weights; each implementation result is "
        "compared with the matrix built from a least-squares solution in extended precision")
ASSUMPTIONS = ["designs determine the model (full column rank)"]


def ref_ols(X, f, w):
    u = lsq(np.hstack((np.ones((X.shape[0], 1)), X)), f, w)
    return np.outer(u[1:], u[1:])


def ref_qphd(X, f, w):
    m = X.shape[1]
    idx = multi_indices(m, 2)
    c = lsq(monomials(X, idx), f, w)
    b, A = np.zeros(m), np.zeros((m, m))
    for a, v in zip(idx, c):
        nz = [j for j in range(m) if a[j]]
        if sum(a) == 1:
            b[nz[0]] = v
        elif sum(a) == 2 and len(nz) == 1:
            A[nz[0], nz[0]] = 2 * v
        elif sum(a) == 2:
            A[nz[0], nz[1]] = A[nz[1], nz[0]] = v
    inside = all(-1.0 <= x <= 1.0 for x in X.ravel())
    return np.outer(b, b) + (1.0 / 3.0 if inside else 1.0) * A.dot(A.T)


REF = {"OLS": (ref_ols, lambda *a: subspaces.ols_subspace(*a)),
       "QPHD": (ref_qphd, lambda *a: subspaces.qphd_subspace(*a))}


def compare(ctx, kind, X, f, w, what, rtol=1e-7):
    ref, fn = REF[kind]
    C = ref(X, f, w)
    e, W = fn(X, f, w)
    if np.max(np.abs(C)) < 1e-20 * np.max(np.abs(f)) ** 2:
        fail(np.max(np.abs(e)) > 1e-15 * np.max(np.abs(f)) ** 2, "{}: eigenvalues {} of a constant function", what, e)
    else:
        eigen_ok(e, W, C, what, rtol)
    ctx.state(kind, e / max(np.max(e), 1e-300), np.abs(W[0]))
    ctx.count("transitions")
    return e, W, C


def need(kind, m):
    return m + 1 if kind == "OLS" else (m + 1) * (m + 2) // 2


def ranges(X):
    yield "inside", X
    yield "reaching 1", X / np.max(np.abs(X))
    a = X / np.max(np.abs(X))
    i = np.unravel_index(np.argmax(np.abs(a)), a.shape)
    b = a.copy(); b[i] = 1.0000001
    yield "just above 1", b
    b = a.copy(); b[i] = -1.0000001
    yield "just below -1", b
    b = 0.5 * X; b[i] = -3.0
    yield "one entry below -1", b
    b = 0.5 * X; b[i] = 3.0
    yield "one entry above 1", b
    yield "positive beyond 1", X + 1.5
    yield "negative beyond -1", X - 1.5
    yield "large", 10 * X
    yield "both sides", 2 * X
    yield "small", 0.01 * X
    b = a.copy(); b[i] = -1.0
    yield "touching -1", b
    yield "mixed scales", X * (10.0 ** -(np.arange(X.shape[1]) % 3))


def outputs(X):
    M, m = X.shape
    g = data.weyl(1, m, 5.0)[0]
    t = X.dot(g)
    yield "linear", 2.0 + t
    yield "quadratic", 1.0 + t + 0.7 * t ** 2 - X[:, 0] * X[:, -1]
    yield "pure square", X[:, -1] ** 2
    yield "product", X[:, 0] * X[:, -1]
    yield "rough", data.weyl(M, 1, 7.0)[:, 0]
    yield "exponential", np.exp(t)
    yield "steps", np.where(t > 0, 1.0, -1.0)
    yield "constant", np.full(M, 3.0)
    yield "spike", np.where(np.arange(M) == M - 1, 1.0, 0.0)
    yield "large", 1e6 * (1 + t + t ** 2)
    yield "small", 1e-6 * (1 + t + t ** 2)


def catalogue(ctx, kind, sizes):
    for extra, m in sizes:
        M = need(kind, m) + extra
        for rn, X in ranges(data.weyl(M, m, 0.1)):
            for fn, f in outputs(X):
                f = f.reshape(M, 1)
                for wn, w in data.weights(M):
                    if wn in ("with zeros", "one sample"):
                        continue
                    with ctx.case({"type": kind, "M": M, "m": m, "range": rn, "f": fn, "weights": wn}):
                        e, W, C = compare(ctx, kind, X, f, w, kind)
                        if fn == "linear":
                            g = data.weyl(1, m, 5.0)[0]
                            g = g / np.linalg.norm(g)
                            close(np.abs(W[:, 0].dot(g)), 1.0, 1e-9, what="direction of a linear function")
                        if m > 1 and wn == "uniform":
                            s = subspaces.Subspaces()
                            s.compute(X=X, f=f, sstype=kind)
                            if np.max(np.abs(C)) > 1e-12 * np.max(np.abs(f)) ** 2:
                                eigen_ok(s.eigenvals, s.eigenvecs, C, "compute", 1e-7)
                        if m > 1 and wn == "increasing":
                            s = subspaces.Subspaces()
                            s.compute(X=X, f=f, weights=w, sstype=kind)
                            if np.max(np.abs(C)) > 1e-12 * np.max(np.abs(f)) ** 2:
                                eigen_ok(s.eigenvals, s.eigenvecs, C, "compute with weights", 1e-7)
                        ctx.sample({"type": kind, "X": X, "f": f, "eigenvals": e})


def zero_weights(ctx, kind, m):
    """Samples of weight zero do not count at all."""
    M = need(kind, m) + 3
    X = data.weyl(M, m, 0.4)
    f = np.exp(X[:, :1]) + X[:, -1:]
    for out in itertools.chain(itertools.combinations(range(M), 1), itertools.combinations(range(M), 3)):
        w = np.ones((M, 1))
        w[list(out)] = 0
        keep = [i for i in range(M) if i not in out]
        with ctx.case({"type": kind, "m": m, "zero weights": out}):
            C = REF[kind][0](X[keep], f[keep], np.ones(len(keep)))
            e, W = REF[kind][1](X, f, w)
            if np.max(np.abs(X)) <= 1.0:
                eigen_ok(e, W, C, "zero weights", 1e-7)


def multiplicity(ctx, kind, m, top):
    M = need(kind, m) + 1
    X = data.weyl(M, m, 0.9)
    f = (np.exp(X[:, :1]) + X[:, -1:] ** 2)
    for k in itertools.product(range(1, top + 1), repeat=M):
        rows = [i for i in range(M) for _ in range(k[i])]
        L = len(rows)
        with ctx.case({"type": kind, "m": m, "multiplicities": k}):
            fn = REF[kind][1]
            e1, W1 = fn(X, f, np.array(k, float).reshape(M, 1))
            e2, W2 = fn(X[rows], f[rows], np.ones((L, 1)))
            close(e1, e2, 1e-7, atol=1e-12, what="eigenvalues with weights and with repeated samples")
            close((W1 * e1[:, 0]).dot(W1.T), (W2 * e2[:, 0]).dot(W2.T), 1e-7, what="weights and repeated samples")
            compare(ctx, kind, X, f, np.array(k, float).reshape(M, 1), kind)


def all_outputs(ctx, kind, m, alphabet):
    M = need(kind, m) + (1 if kind == "OLS" else 0)
    X = data.weyl(M, m, 1.7)
    for vals in itertools.product(alphabet, repeat=M):
        with ctx.case({"type": kind, "m": m, "f": vals}):
            if len(set(vals)) > 1:
                compare(ctx, kind, X, np.array(vals, float).reshape(M, 1), np.ones((M, 1)), kind, 1e-6)


def directions(ctx, kind, m):
    M = need(kind, m) + 4
    for scale, shift in ((1.0, 0.0), (1.0, -0.9), (3.0, 0.0)):
        X = scale * data.weyl(M, m, 0.2) + shift
        for d in itertools.product((-1, 0, 1, 2), repeat=m):
            if not any(d):
                continue
            d = np.array(d, float)
            for amp in (1.0, -250.0, 1e-3):
                with ctx.case({"type": kind, "m": m, "direction": d, "amplitude": amp, "scale": scale}):
                    f = 5.0 + amp * X.dot(d).reshape(M, 1)
                    e, W = REF[kind][1](X, f, np.ones((M, 1)) / M)
                    close(abs(W[:, 0].dot(d)) / np.linalg.norm(d), 1.0, 1e-9, what="direction")
                    close(e[0, 0], amp ** 2 * d.dot(d), 1e-7, what="eigenvalue")
                    fail(np.any(e[1:] > 1e-9 * e[0, 0]), "other eigenvalues {}", e)
                    fail(W[0, 0] < 0, "sign {}", W[:, 0])


def normal_ref(kind, X, f, w):
    """The reference for many samples: normal equations in an orthonormal basis, in extended precision."""
    M, m = X.shape
    if kind == "OLS":
        A = np.hstack((np.ones((M, 1)), X))
    else:
        idx = multi_indices(m, 2)
        A = monomials(X, idx)
    s = np.sqrt(np.asarray(w, float).reshape(M, 1))
    Q, R = np.linalg.qr((A * s))
    b = (np.asarray(f).reshape(M, 1) * s)
    c = np.linalg.solve(R, Q.T.dot(b))
    c = (c + np.linalg.solve(R, Q.T.dot(b - (A * s).dot(c))))[:, 0]
    if kind == "OLS":
        return np.outer(c[1:], c[1:])
    b, H = np.zeros(m), np.zeros((m, m))
    for a, v in zip(idx, c):
        nz = [j for j in range(m) if a[j]]
        if sum(a) == 1:
            b[nz[0]] = v
        elif len(nz) == 1 and nz:
            H[nz[0], nz[0]] = 2 * v
        elif len(nz) == 2:
            H[nz[0], nz[1]] = H[nz[1], nz[0]] = v
    inside = np.all(np.abs(X) <= 1.0)
    return np.outer(b, b) + (1.0 / 3.0 if inside else 1.0) * H.dot(H.T)


def large(ctx, kind, sizes):
    """Numbers of samples and inputs at which a routine could change its method."""
    for M, m in sizes:
        if M < need(kind, m):
            continue
        X0 = data.weyl(M, m, 0.6)
        late = 0.9 * X0
        late[-1, -1] = 1.5
        early = 0.9 * X0
        early[0, 0] = -1.5
        for rn, X in (("inside", X0), ("last entry above 1", late), ("first entry below -1", early), ("wide", 4 * X0)):
            t = X.dot(data.weyl(1, m, 5.0)[0])
            for fname, f in (("exponential", np.exp(0.5 * t)), ("rough", data.weyl(M, 1, 7.0)[:, 0]),
                             ("quadratic", 1.0 + t + 0.7 * t ** 2 - X[:, 0] * X[:, -1]),
                             ("spike", np.where(np.arange(M) == M - 1, float(M), t))):
                f = f.reshape(M, 1)
                for wn, w in (("uniform", np.ones((M, 1)) / M), ("increasing", (np.arange(M).reshape(M, 1) + 1.0) / M)):
                    with ctx.case({"type": kind, "M": M, "m": m, "range": rn, "f": fname, "weights": wn}):
                        C = normal_ref(kind, X, f, w)
                        e, W = REF[kind][1](X, f, w)
                        eigen_ok(e, W, C, kind, 1e-6)
                        if m > 1:
                            s = subspaces.Subspaces()
                            s.compute(X=X, f=f, weights=w if wn == "increasing" else None, sstype=kind)
                            eigen_ok(s.eigenvals, s.eigenvecs, C, "compute", 1e-6)
                        ctx.state(kind, e, np.abs(W[0]))
                        ctx.count("transitions")


def scales(ctx, kind):
    """The result scales with the square of the outputs and does not depend on the scale of the weights."""
    for m in (1, 2, 3):
        M = need(kind, m) + 5
        X = data.weyl(M, m, 0.1)
        f = np.exp(X.dot(data.weyl(1, m, 5.0)[0])).reshape(M, 1)
        w = (np.arange(M).reshape(M, 1) + 1.0) / M
        C = REF[kind][0](X, f, w)
        for sf in (1e-30, 1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12, 1e30):
            for sw in (1e-12, 1e-6, 1e-3, 1.0, 1e3, 1e6, 1e12):
                with ctx.case({"type": kind, "m": m, "outputs times": sf, "weights times": sw}):
                    e, W = REF[kind][1](X, f * sf, w * sw)
                    eigen_ok(e / sf ** 2, W, C, "scaled", 1e-7)
        for sx in (1e-6, 1e-4, 1e-2, 0.5, 3.0, 1e2, 1e4):
            with ctx.case({"type": kind, "m": m, "inputs times": sx}):
                if kind == "OLS" or sx in (1e-2, 0.5, 3.0, 1e2):
                    compare(ctx, kind, X * sx, f, w, "inputs times {}".format(sx), 1e-6)
        for sx in ((-1e4, -100.0, -5.0, 5.0, 100.0, 1e4) if kind == "OLS" else (-30.0, -5.0, 5.0, 30.0)):
            for sc in (1.0, 0.1):
                with ctx.case({"type": kind, "m": m, "inputs plus": sx, "times": sc}):
                    compare(ctx, kind, sc * X + sx, f, w, "inputs plus {}".format(sx), 1e-5)
                    Z = X.copy()
                    Z[:, -1] = sc * Z[:, -1] + sx
                    compare(ctx, kind, Z, f, w, "one input plus {}".format(sx), 1e-5)
        for sh in (-1e6, -1e3, -50.0, 50.0, 1e3, 1e6):
            with ctx.case({"type": kind, "m": m, "outputs plus": sh}):
                compare(ctx, kind, X, f + sh, w, "outputs plus {}".format(sh), 1e-6)


def jobs(tier):
    big = tier == "thorough"
    J = []
    for kind in ("OLS", "QPHD"):
        for m in range(1, 7 if big else 6):
            J.append(Job("{} catalogue m={}".format(kind, m), catalogue, kind, [(x, m) for x in
                                                                            ((0, 1, 2, 7, 30) if big else (0, 3, 20))]))
        for m in (2, 3):
            J.append(Job("{} zero weights m={}".format(kind, m), zero_weights, kind, m))
            J.append(Job("{} directions m={}".format(kind, m), directions, kind, m))
        J.append(Job("{} directions m=4".format(kind), directions, kind, 4))
    for kind in ("OLS", "QPHD"):
        bigs = [(M, m) for M in data.BIGM for m in ((2, 3) if M < 2500 else (2,))]
        bigs += [(M, m) for m in data.BIGDIM if m <= (100 if kind == "OLS" else 20) for M in (need(kind, m) + 9,
                                                                                             2 * need(kind, m))]
        for i in range(3):
            J.append(Job("{} large {}".format(kind, i), large, kind, bigs[i::3]))
        J.append(Job("{} scales".format(kind), scales, kind))
    J.append(Job("OLS multiplicities m=2", multiplicity, "OLS", 2, 4))
    J.append(Job("OLS multiplicities m=3", multiplicity, "OLS", 3, 3))
    J.append(Job("QPHD multiplicities m=1", multiplicity, "QPHD", 1, 4))
    J.append(Job("QPHD multiplicities m=2", multiplicity, "QPHD", 2, 3 if big else 2))
    J.append(Job("OLS all outputs m=2", all_outputs, "OLS", 2, (-1, 0, 1, 2)))
    J.append(Job("OLS all outputs m=3", all_outputs, "OLS", 3, (-1, 0, 1)))
    J.append(Job("QPHD all outputs m=1", all_outputs, "QPHD", 1, (-1, 0, 1, 2)))
    J.append(Job("QPHD all outputs m=2", all_outputs, "QPHD", 2, (-1, 0, 1)))
    J.append(Job("large samples", catalogue, "OLS", [(97, 3), (250, 2)] + ([(997, 2)] if big else [])))
    J.append(Job("large samples quadratic", catalogue, "QPHD", [(94, 3), (251, 2)] + ([(994, 2)] if big else [])))
    J += history.jobs("C02", tier)
    return J
