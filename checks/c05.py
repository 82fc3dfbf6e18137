"""C05: Subspaces objects through every history of compute and partition calls, successful and failing."""
import collections
import itertools

import numpy as np

import data
import history
from core import Job, fail, same
from sut import seeded, snapshot, subspaces

LEVEL = "model_checking"
RULE = ("breadth-first search over histories of calls on real objects; a state is the complete content of the object; "
        "in every state and after every call the object is compared with the reference model (state of the last "
        "successful compute on a fresh object, split at the last chosen dimension); plus all histories to a fixed "
        "depth without merging states, and histories interleaved over two objects")
ASSUMPTIONS = ["each compute starts from the same state of numpy's generator, so its outcome is a function of its "
               "arguments"]

ATTRS = ("eigenvals", "eigenvecs", "W1", "W2", "e_br", "sub_br")


def dataset(M, m, ph):
    X = data.weyl(M, m, ph)
    t = X.dot(np.arange(1, m + 1.0))
    return dict(X=X, f=(np.exp(0.3 * t) + X[:, 0] ** 2).reshape(M, 1), df=data.weyl(M, m, ph + 1.0) * 4.0 ** -np.arange(m))


A, B, D = dataset(12, 2, 0.1), dataset(15, 3, 0.2), dataset(20, 4, 0.3)


def ops(names):
    """name -> (kind, callable on an object)"""
    O = collections.OrderedDict()

    def comp(name, **kw):
        O[name] = ("compute", lambda s, kw=kw: seeded(lambda: s.compute(**kw), 11))

    def part(n):
        O["partition({!r})".format(n)] = ("partition", n)
    comp("AS2", df=A["df"])
    comp("AS3", df=B["df"])
    comp("AS3 boot", df=B["df"], nboot=2)
    comp("OLS2", X=A["X"], f=A["f"], sstype="OLS")
    comp("QPHD3", X=B["X"], f=B["f"], sstype="QPHD")
    comp("OPG2", X=A["X"], f=A["f"], sstype="OPG")
    comp("AS4 RS", df=D["df"], ptype="RS", nboot=3)
    comp("AS4 LI weights", df=D["df"], ptype="LI", nboot=3, weights=np.arange(1, 21.0).reshape(20, 1))
    comp("QPHD3 boot RS", X=B["X"], f=B["f"], sstype="QPHD", nboot=2, ptype="RS")
    comp("X f df", X=A["X"], f=A["f"], df=A["df"])
    for n in (1, 2, 3, 4):
        part(n)
    comp("!no data")
    comp("!unknown type", df=A["df"], sstype="XX")
    comp("!unknown partition", df=A["df"], ptype="XX")
    comp("!unknown partition boot", df=B["df"], ptype="XX", nboot=2)
    comp("!RS without bootstrap", df=B["df"], ptype="RS")
    comp("!LI without bootstrap", df=A["df"], ptype="LI")
    comp("!df missing", X=A["X"], f=A["f"], sstype="AS")
    comp("!f missing", X=A["X"], sstype="OLS")
    comp("!f of other length", X=A["X"], f=B["f"], sstype="QPHD")
    comp("!f with two columns", X=A["X"], f=A["X"], sstype="OLS")
    comp("!too few", X=A["X"][:4], f=A["f"][:4], sstype="QPHD")
    comp("!too few OPG", X=A["X"][:2], f=A["f"][:2], sstype="OPG")
    comp("!one dimension", df=A["df"].ravel())
    comp("AS2 nan", df=A["df"] * np.nan)
    comp("!nan OLS", X=A["X"] * np.nan, f=A["f"], sstype="OLS")
    comp("!nan QPHD boot", X=B["X"] * np.nan, f=B["f"], sstype="QPHD", nboot=2)
    comp("!weights of other length", df=A["df"], weights=np.ones((3, 1)))
    comp("!bootstrap fails", df=A["df"], X=B["X"][:12], f=A["X"], nboot=1, sstype="OLS")
    comp("!fails in the bootstrap", X=A["X"], df=A["df"], f=A["f"][:3], nboot=2)
    comp("!nboot not a number", df=B["df"], nboot="2")
    for n in (0, -1, 5, 1.0, "1", None):
        part(n)
    return O if names is None else collections.OrderedDict((k, O[k]) for k in names)


OPS = ops(None)
FEW = ["AS2", "AS3 boot", "QPHD3", "AS4 RS", "partition(1)", "partition(2)", "partition(3)", "!unknown partition",
       "!RS without bootstrap", "!unknown type", "!nan OLS", "!fails in the bootstrap", "partition(0)", "partition(4)"]


def fresh_results():
    """Reference: outcome of each compute on a fresh object."""
    R = {}
    for k, (kind, fn) in OPS.items():
        if kind != "compute":
            continue
        s = subspaces.Subspaces()
        try:
            fn(s)
            R[k] = {a: getattr(s, a) for a in ATTRS}
        except Exception as e:
            R[k] = (type(e), str(e))
    return R


class Model:
    def __init__(self, ref):
        self.ref = ref
        self.v = dict.fromkeys(ATTRS)

    def apply(self, name):
        """Expected outcome: None or an exception type."""
        kind, arg = OPS[name]
        if kind == "compute":
            r = self.ref[name]
            if isinstance(r, tuple):
                return r[0]
            self.v = dict(r)
            return None
        if self.v["eigenvecs"] is None or not isinstance(arg, int):
            return Exception
        m = self.v["eigenvecs"].shape[0]
        if not 1 <= arg <= m:
            return Exception
        self.v = dict(self.v, W1=self.v["eigenvecs"][:, :arg], W2=self.v["eigenvecs"][:, arg:])
        return None


def step(s, model, name, hist):
    kind, arg = OPS[name]
    err = None
    try:
        if kind == "compute":
            arg(s)
        else:
            s.partition(arg)
    except Exception as e:
        err = e
    want = model.apply(name)
    fail(want is None and err is not None, "{} after {} raised {!r}", name, hist, err)
    fail(want is not None and err is None, "{} after {} was accepted", name, hist)


def invariant(s, model, hist):
    for a in ATTRS:
        x, y = getattr(s, a), model.v[a]
        fail((x is None) != (y is None), "{} after {}: {} instead of {}", a, hist, x, y)
        if y is not None:
            same(x, y, "{} after {}".format(a, hist))
    if s.eigenvecs is not None:
        same(np.hstack((s.W1, s.W2)), s.eigenvecs, "columns of W1 and W2 after {}".format(hist))
        fail(s.eigenvals.shape[0] != s.eigenvecs.shape[0], "sizes {} {}", s.eigenvals.shape, s.eigenvecs.shape)


def replay(hist, ref):
    s, model = subspaces.Subspaces(), Model(ref)
    for i, h in enumerate(hist):
        step(s, model, h, hist[:i])
    return s, model


def bfs(ctx, limit):
    ref = fresh_results()
    with ctx.case("outcomes on fresh objects"):
        for k, r in ref.items():
            fail(isinstance(r, tuple) != k.startswith("!"), "{} on a fresh object: {}", k, r)
    s = subspaces.Subspaces()
    seen = {snapshot(vars(s))}
    frontier = collections.deque([()])
    while frontier:
        hist = frontier.popleft()
        for name in OPS:
            ctx.count("transitions")
            with ctx.case({"history": hist + (name,)}):
                s, model = replay(hist, ref)
                invariant(s, model, hist)
                before = snapshot(vars(s))
                step(s, model, name, hist)
                invariant(s, model, hist + (name,))
                k = snapshot(vars(s))
                if name.startswith("!"):
                    fail(k != before, "{} changed the object after {}", name, hist)
                ctx.state(k)
                if k not in seen:
                    if len(seen) > limit:
                        ctx.count("capped")
                        return
                    seen.add(k)
                    frontier.append(hist + (name,))
    ctx.sample({"states": len(seen), "longest history": hist})


def sequences(ctx, names, depth, first):
    """All histories, without merging states."""
    ref = fresh_results()
    for tail in itertools.product(names, repeat=depth - 1):
        hist = (first,) + tail
        with ctx.case({"history": hist}):
            s, model = subspaces.Subspaces(), Model(ref)
            for i, h in enumerate(hist):
                step(s, model, h, hist[:i])
                invariant(s, model, hist[:i + 1])
                ctx.count("transitions")
            ctx.state(snapshot(vars(s)))


def wide(ctx, m):
    """Many inputs: every split, up and down, after every kind of estimate, against fresh objects."""
    M = 3 * m + 100
    d = dataset(M, m, 0.4)
    kinds = [dict(df=d["df"]), dict(X=d["X"], f=d["f"], sstype="OLS"), dict(df=d["df"], nboot=2, ptype="RS"),
             dict(df=d["df"], nboot=2, ptype="LI"), dict(df=d["df"], nboot=2)]
    if m <= 12:
        kinds.append(dict(X=d["X"], f=d["f"], sstype="QPHD"))
    s = subspaces.Subspaces()
    for i, kw in enumerate(kinds):
        with ctx.case({"m": m, "compute": i}):
            seeded(lambda: s.compute(**kw), 11)
            t = subspaces.Subspaces()
            seeded(lambda: t.compute(**kw), 11)
            for a in ATTRS:
                if getattr(t, a) is not None:
                    same(getattr(s, a), getattr(t, a), a)
            ctx.state(m, i, s.eigenvals)
        for order in (range(1, m + 1), range(m, 0, -1), [(7 * k) % m + 1 for k in range(m)]):
            for n in order:
                with ctx.case({"m": m, "compute": i, "partition": n}):
                    s.partition(n)
                    same(s.W1, t.eigenvecs[:, :n], "W1")
                    same(s.W2, t.eigenvecs[:, n:], "W2")
                    same(s.eigenvecs, t.eigenvecs, "eigenvectors")
                    same(s.eigenvals, t.eigenvals, "eigenvalues")
                    ctx.count("transitions")
                for bad in (0, -1, m + 1, 2 * m, -m, n + 0.5, "1", None):
                    with ctx.case({"m": m, "compute": i, "partition": n, "refused": repr(bad)}):
                        try:
                            s.partition(bad)
                            ok = False
                        except Exception:
                            ok = True
                        fail(not ok, "partition({!r}) accepted", bad)
                        same(s.W1, t.eigenvecs[:, :n], "W1 after a refused partition")
                        same(s.W2, t.eigenvecs[:, n:], "W2 after a refused partition")


def long_history(ctx, steps):
    """One object used for a long time: de Bruijn-like walk through all pairs of calls."""
    ref = fresh_results()
    names = list(OPS)
    s, model = subspaces.Subspaces(), Model(ref)
    k = 0
    for t in range(steps):
        k = (k + 1 + (t * t + t // len(names)) % (len(names) - 1)) % len(names)
        with ctx.case({"call": t, "name": names[k]}):
            step(s, model, names[k], "{} calls".format(t))
            invariant(s, model, "{} calls".format(t + 1))
            ctx.count("transitions")
            ctx.state(snapshot(vars(s)))


def two_objects(ctx, names, depth):
    ref = fresh_results()
    for hist in itertools.product([(o, n) for o in (0, 1) for n in names], repeat=depth):
        if hist[0][0]:
            continue
        with ctx.case({"history": hist}):
            S = [subspaces.Subspaces(), subspaces.Subspaces()]
            Ms = [Model(ref), Model(ref)]
            for i, (o, h) in enumerate(hist):
                step(S[o], Ms[o], h, hist[:i])
                for j in (0, 1):
                    invariant(S[j], Ms[j], hist[:i + 1])
                ctx.count("transitions")
            third = subspaces.Subspaces()
            fail(any(getattr(third, a) is not None for a in ATTRS), "a new object has results after {}", hist)
            ctx.state(snapshot(vars(S[0])), snapshot(vars(S[1])))


def jobs(tier):
    big = tier == "thorough"
    J = [Job("reachable states", bfs, 2000 if not big else 20000)]
    for m in (6, 10, 11, 16, 17, 25, 33):
        J.append(Job("wide m={}".format(m), wide, m))
    J.append(Job("long history", long_history, 20000 if big else 3000))
    for n in OPS:
        J.append(Job("depth 2 from {}".format(n), sequences, list(OPS), 2, n))
    for n in FEW:
        J.append(Job("depth {} few from {}".format(4 if big else 3, n), sequences, FEW, 4 if big else 3, n))
    J.append(Job("two objects", two_objects, ["AS2", "AS3 boot", "partition(1)", "partition(2)", "!unknown partition",
                                            "!nan OLS"], 4 if big else 3))
    J += history.jobs("C05", tier)
    return J
