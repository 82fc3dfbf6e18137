"""C29: the models of the tutorials compute the documented functions and their gradients."""
import importlib
import itertools
import sys

import numpy as np

import data
from core import REPO, Job, close, fail, same
from sut import ac, gradients, misc, simrunners, subspaces

LEVEL = "model_checking"
RULE = ("every model x every corner of its domain, every point of the grid of three (five, in the thorough tier) values per input "
        "around the center up to the bound, points without structure; every number of rows, layout and type of the inputs; "
        "every row alone and among others; pairs of models in either order; gradients against complex steps of the formulas")
ASSUMPTIONS = ["the robot arm's distance is positive at the points where its gradient is judged"]

pi = np.pi


def borehole(x):
    rw, r, Tu, Hu, Tl, Hl, L, Kw = x
    ln = np.log(r / rw)
    return 2 * pi * Tu * (Hu - Hl) / (ln * (1 + 2 * L * Tu / (ln * rw * rw * Kw) + Tu / Tl))


def circuit(x):
    Rb1, Rb2, Rf, Rc1, Rc2, beta = x
    Vb1 = 12 * Rb2 / (Rb1 + Rb2)
    t = beta * (Rc2 + 9)
    return (Vb1 + 0.74) * t / (t + Rf) + 11.35 * Rf / (t + Rf) + 0.74 * Rf * t / ((t + Rf) * Rc1)


def piston(x):
    M, S, V0, k, P0, Ta, T0 = x
    A = P0 * S + 19.62 * M - k * V0 / S
    V = S / (2 * k) * (np.sqrt(A * A + 4 * k * P0 * V0 / T0 * Ta) - A)
    return 2 * pi * np.sqrt(M / (k + S * S * P0 * V0 / T0 * Ta / (V * V)))


def robot(x):
    u = v = 0.0
    t = 0.0
    for i in range(4):
        t = t + x[i]
        u = u + x[4 + i] * np.cos(t)
        v = v + x[4 + i] * np.sin(t)
    return np.sqrt(u * u + v * v)


def wing(x):
    Sw, Wfw, A, La, q, la, tc, Nz, Wdg, Wp = x
    c = np.cos(La)
    return (0.036 * Sw ** 0.758 * Wfw ** 0.0035 * (A / c ** 2) ** 0.6 * q ** 0.006 * la ** 0.04 *
            (100 * tc / c) ** -0.3 * (Nz * Wdg) ** 0.49 + Sw * Wp)


def box(lo, hi):
    lo, hi = np.array(lo, float), np.array(hi, float)
    return lambda z: [0.5 * (lo[i] + hi[i]) + 0.5 * (hi[i] - lo[i]) * z[i] for i in range(len(lo))]


def bore_units(z):
    x = box([63070, 990, 63.1, 700, 1120, 9855], [115600, 1110, 116, 820, 1680, 12045])(z[2:])
    return [0.1 + 0.0161812 * z[0], np.exp(7.71 + 1.0056 * z[1])] + x


def wing_units(z):
    x = box([150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025], [200, 300, 10, 10, 45, 1, .18, 6, 2500, .08])(z)
    x[3] = x[3] * pi / 180
    return x


# directory, module, function, number of inputs, formula, inputs from normalized ones
MODELS = [("test_functions/borehole", "borehole_functions", "borehole", 8, borehole, bore_units),
          ("test_functions/otl_circuit", "otlcircuit_functions", "circuit", 6, circuit,
           box([50, 25, .5, 1.2, .25, 50], [150, 70, 3, 2.5, 1.2, 300])),
          ("test_functions/piston", "piston_functions", "piston", 7, piston,
           box([30, .005, .002, 1000, 90000, 290, 340], [60, .02, .01, 5000, 110000, 296, 360])),
          ("test_functions/robot", "robot_functions", "robot", 8, robot, box([0] * 8, [2 * pi] * 4 + [1] * 4)),
          ("test_functions/wing_weight", "wing_functions", "wing", 10, wing, wing_units),
          ("", "wing_functions", "wing", 10, wing, None)]


def load(k):
    """The model's functions, from its own directory."""
    d, mod, name = MODELS[k][:3]
    path = REPO + "/tutorials" + ("/" + d if d else "")
    sys.path.insert(0, path)
    try:
        sys.modules.pop(mod, None)
        importlib.invalidate_caches()
        m = importlib.import_module(mod)
    finally:
        sys.path.remove(path)
        sys.modules.pop(mod, None)
    fail(not m.__file__.startswith(path + "/" + mod), "{} comes from {}", mod, m.__file__)
    return getattr(m, name), getattr(m, name + "_grad")


def physical(k, Z):
    """What is given to the model: normalized inputs, except for the first tutorial, which takes them as they are (degrees)."""
    if MODELS[k][5] is not None:
        return Z
    lo = np.array([150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025])
    hi = np.array([200, 300, 10, 10, 45, 1, .18, 6, 2500, .08])
    return 0.5 * (lo + hi) + 0.5 * (hi - lo) * Z


def reference(k, X):
    """Values and gradients of the formula; the first tutorial's gradient is per radian."""
    m, formula, units = MODELS[k][3:]

    def f(z):
        if units is not None:
            return formula(units(z))
        z = list(z)
        z[3] = z[3] * pi / 180
        return formula(z)
    cols = [X[:, i] for i in range(m)]
    val = f(cols)
    G = np.empty(X.shape)
    for i in range(m):
        h = 1e-30 * max(1.0, np.max(np.abs(X[:, i])))
        z = [c.astype(complex) for c in cols]
        z[i] = z[i] + 1j * h
        G[:, i] = np.imag(f(z)) / h
    if units is None:
        G[:, 3] *= 180 / pi
    return val.reshape(-1, 1), G


def grids(m, per, bound):
    """All corners, all points of the grid with at most `bound` inputs away from the center, and points without structure."""
    yield "corners", np.array(list(itertools.product((-1.0, 1.0), repeat=m)))
    steps = {3: (-1.0, 1.0), 5: (-1.0, -0.5, 0.5, 1.0)}[per]
    for b in range(bound + 1):
        P = []
        for S in itertools.combinations(range(m), b):
            for v in itertools.product(steps, repeat=b):
                z = np.zeros(m)
                z[list(S)] = v
                P.append(z)
        yield "{} off center".format(b), np.array(P)
    yield "general", 0.99 * data.weyl(500, m, 2.0)


def judge(k, X, fun, grad, what):
    want, G = reference(k, X)
    M, m = X.shape
    keep = X.copy()
    got = fun(X)
    fail(np.shape(got) != (M, 1), "{}: values have shape {}", what, np.shape(got))
    sc = np.abs(want) + 1e-6 * np.max(np.abs(want))
    bad = np.abs(got - want) > 1e-9 * sc
    fail(np.any(bad), "{}: {} instead of {} at {}", what, got[bad][:1], want[bad][:1], X[bad[:, 0]][:1])
    D = grad(X)
    fail(np.shape(D) != (M, m), "{}: gradients have shape {}", what, np.shape(D))
    ok = np.abs(want[:, 0]) > 1e-6
    gs = 1e-7 * (np.abs(G) + 1e-3 * np.max(np.abs(G), axis=1, keepdims=True)) / np.minimum(1.0, np.abs(want) * 1e3)
    bad = (np.abs(D - G) > gs)[ok]
    if np.any(bad):
        r, c = np.argwhere(bad)[0]
        fail(True, "{}: derivative {} instead of {} in input {} at {}", what, D[ok][r, c], G[ok][r, c], c, X[ok][r])
    same(X, keep, what + ": argument")
    return want, G


def values(ctx, k, per, bound):
    fun, grad = load(k)
    m = MODELS[k][3]
    for nm, Z in grids(m, per, bound):
        for at in range(0, len(Z), 512):
            with ctx.case({"model": MODELS[k][1], "points": nm, "from": at}):
                X = physical(k, Z[at:at + 512])
                v, G = judge(k, X, fun, grad, nm)
                ctx.state(nm, at, v)
                ctx.count("transitions", len(X))
                ctx.count("points", len(X))
    ctx.sample({"model": MODELS[k][1], "inputs": m})


def forms(ctx, k):
    """Rows alone, among others, in other orders, layouts and types."""
    fun, grad = load(k)
    m = MODELS[k][3]
    X = physical(k, 0.9 * data.weyl(7, m, 3.0))
    want, G = reference(k, X)
    sc, gs = np.max(np.abs(want)), np.max(np.abs(G), axis=0) + 1e-6 * np.max(np.abs(G))
    for M in range(1, 8):
        for rows in itertools.combinations(range(7), M):
            with ctx.case({"model": MODELS[k][1], "rows": rows}):
                r = list(rows)
                close(fun(X[r]) / sc, want[r] / sc, 1e-9, what="values")
                close(grad(X[r]) / gs, G[r] / gs, 1e-7, what="gradients")
                ctx.state(rows)
    for nm, A in data.relayouts(X):
        with ctx.case({"model": MODELS[k][1], "layout": nm}):
            keep = A.copy()
            close(fun(A) / sc, want / sc, 1e-9, what="values")
            close(grad(A) / gs, G / gs, 1e-7, what="gradients")
            same(A, keep, "argument")
    for i in range(7):
        with ctx.case({"model": MODELS[k][1], "one-dimensional row": i}):
            close(fun(X[i]) / sc, want[i:i + 1] / sc, 1e-9, what="value")
            close(grad(X[i]) / gs, G[i:i + 1] / gs, 1e-7, what="gradient")
    nans = []
    for z in itertools.product((-1, 0, 1), repeat=3):
        with ctx.case({"model": MODELS[k][1], "integers": z}):
            Z = np.resize(z, m).reshape(1, m) if MODELS[k][5] is not None else np.array(
                [[150, 220, 6, 3, 16, 1, 1, 3, 1700, 1]]) + np.resize(np.abs(z), m)
            w, g = reference(k, Z.astype(float))
            if w[0, 0] < 1e-6:
                continue
            gg = np.max(np.abs(g)) + 1e-12
            v, G1 = fun(Z), grad(Z)
            if np.any(np.isnan(v)) or np.any(np.isnan(G1)):
                nans.append(z)
            if not np.any(np.isnan(v)):
                close(v / w, w / w, 1e-9, what="value at integers")
            if not np.any(np.isnan(G1)):
                close(G1 / gg, g / gg, 1e-7, what="gradient at integers")
            ctx.state("int", z)
    with ctx.case({"model": MODELS[k][1], "integers": "numbers"}):
        assert not nans, "not a number at integer inputs {}".format(nans)
    with ctx.case({"model": MODELS[k][1], "runners": True}):
        close(simrunners.SimulationRunner(fun).run(X) / sc, want / sc, 1e-9, what="simulation runner")
        close(simrunners.SimulationGradientRunner(grad).run(X) / gs, G / gs, 1e-7, what="gradient runner")
        close(simrunners.SimulationRunner(fun).run(X), fun(X), 1e-12, what="row by row")
    if MODELS[k][5] is not None:
        with ctx.case({"model": MODELS[k][1], "finite differences": True}):
            D = gradients.finite_difference_gradients(X, fun, h=1e-6)
            close(D / np.max(gs), G / np.max(gs), 1e-4, what="finite differences")
    # a call leaves nothing behind
    with ctx.case({"model": MODELS[k][1], "twice": True}):
        a, b = fun(X), grad(X)
        a2, b2 = a.copy(), b.copy()
        fun(0.5 * X + 0.1)
        grad(0.5 * X + 0.1)
        same(a, a2, "values returned before")
        same(b, b2, "gradients returned before")
        a[...] = 0
        b[...] = 0
        close(fun(X), a2, 1e-14, what="values the second time")
        close(grad(X), b2, 1e-14, what="gradients the second time")


def together(ctx):
    """All models in one process, in every order of two."""
    loaded = []
    with ctx.case({"load": "all"}):
        loaded = [load(k) for k in range(len(MODELS))]
    if not loaded:
        return
    for a, b in itertools.product(range(len(MODELS)), repeat=2):
        with ctx.case({"order": (MODELS[a][1], MODELS[b][1])}):
            for k in (a, b, a):
                X = physical(k, 0.9 * data.weyl(5, MODELS[k][3], 4.0))
                judge(k, X, loaded[k][0], loaded[k][1], MODELS[k][1])
                ctx.count("transitions")
            ctx.state(a, b)
    # the two forms of the wing weight agree
    with ctx.case({"wing": "both forms"}):
        Z = 0.9 * data.weyl(20, 10, 6.0)
        f, g = loaded[4]
        F, H = loaded[5]
        X = physical(5, Z)
        close(F(X) / 200, f(Z) / 200, 1e-10, what="values")
        lo = np.array([150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025])
        hi = np.array([200, 300, 10, 10, 45, 1, .18, 6, 2500, .08])
        chain = (hi - lo) / 2
        chain[3] *= pi / 180
        close(H(X) * chain, g(Z), 1e-8, what="chain rule")


def jobs(tier):
    big = tier == "thorough"
    J = [Job("together", together)]
    for k in range(len(MODELS)):
        nm = "{} {}".format(MODELS[k][1], k)
        J.append(Job(nm, values, k, 5 if big else 3, (6 if MODELS[k][3] < 8 else 5) if big else 5))
        J.append(Job(nm + " forms", forms, k))
    return J
