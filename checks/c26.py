"""C26: plots show exactly the given data and files go where documented."""
import itertools
import os
import shutil
import tempfile

import matplotlib
import matplotlib.collections as mc
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np
from scipy.spatial import ConvexHull

import data
from core import Job, fail
from sut import domains, make_subspaces, plotters, seeded, snapshot

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration: every combination of optional arguments and every sequence of up to three plots; figures and files inspected"
RULE = ("every plot x sizes x data x every combination of optional arguments, options and kinds of show (leaving the figures or "
        "closing them); every sequence of two (three) plots with equal and different labels; artists at the time of show, figures "
        "at the time of saving, files on disk")
ASSUMPTIONS = ["figures are judged by their artists, not by pixels"]

SAVED = []
_savefig = matplotlib.figure.Figure.savefig


def _watch(self, fname, *a, **k):
    """Figure.savefig that records what is saved, at low resolution."""
    SAVED.append((str(fname), digest(self)))
    if "dpi" in k:
        k["dpi"] = 20
    return _savefig(self, fname, *a, **k)


matplotlib.figure.Figure.savefig = _watch


def rows(a):
    """Rows in a fixed order, for comparison as sets."""
    a = np.round(np.asarray(a, float).reshape(-1, 2), 9) + 0.0
    return [tuple(r) for r in a[np.lexsort(a.T)]]


def digest(fig):
    out = []
    for ax in fig.axes:
        d = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(),
             tuple(np.round(ax.get_xlim() + ax.get_ylim(), 9))]
        for ln in ax.lines:
            d.append(("line", rows(np.ma.filled(np.ma.asarray(ln.get_xydata(), float), np.nan))))
        for c in ax.collections:
            d.append((type(c).__name__, [rows(p.vertices) for p in c.get_paths()], rows(c.get_offsets()) if len(np.shape(c.get_offsets())) == 2 else 0))
        out.append(d)
    return repr(out)


class Shown(object):
    """Stands for plt.show: records the figures, and closes them as a user does."""

    def __init__(self, closes):
        self.closes, self.calls = closes, []

    def __call__(self, *a, **k):
        self.calls.append([(n, plt.figure(n)) for n in plt.get_fignums()])
        self.digests = [digest(f) for _, f in self.calls[-1]]
        if self.closes:
            plt.close("all")


# ------------------------------------------------------------------------------------------------- reading figures
def panels(fig):
    """Axes of the figure without colorbars, in reading order."""
    ax = [a for a in fig.axes if a.get_label() != "<colorbar>"]
    return sorted(ax, key=lambda a: (-round(a.get_position().y0, 3), round(a.get_position().x0, 3)))


def overlap(fig, what):
    """No axes hide others."""
    fig.canvas.draw()
    ax = [a for a in fig.axes if a.get_visible()]
    for a, b in itertools.combinations(ax, 2):
        p, q = a.get_position(), b.get_position()
        w = min(p.x1, q.x1) - max(p.x0, q.x0)
        h = min(p.y1, q.y1) - max(p.y0, q.y0)
        fail(w > 0.02 and h > 0.02, "{}: axes lie on top of each other", what)


def seen(a):
    return a.get_visible() and (a.get_alpha() is None or a.get_alpha() > 0.05)


def curve(ax, x, y, what):
    """The axes show the points (x, y) as one line and no other points."""
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    L = [ln for ln in ax.lines if len(ln.get_xdata())]
    fail(len(L) != 1, "{}: {} lines", what, len(L))
    got = np.asarray(L[0].get_xydata(), float)
    fail(got.shape != (len(x), 2), "{}: {} points instead of {}", what, len(got), len(x))
    bad = np.max(np.abs(got - np.c_[x, y]))
    fail(not bad <= 1e-12 * (1 + np.max(np.abs(y))), "{}: shows {} instead of {}", what, got, np.c_[x, y])
    fail(not seen(L[0]), "{}: not visible", what)
    fail(L[0].get_marker() in (None, "None", "", " "), "{}: points without marks", what)
    order = sorted(ax.get_children(), key=lambda a: a.get_zorder())      # the order in which they are painted
    for c in ax.collections:
        if c.get_visible() and (c.get_alpha() is None or c.get_alpha() > 0.9):
            fail(order.index(c) > order.index(L[0]), "{}: a region is painted over the data", what)
    inside(ax, np.c_[x, y], what)


def inside(ax, P, what):
    x0, x1 = sorted(ax.get_xlim())
    y0, y1 = sorted(ax.get_ylim())
    tol = 1e-9
    for p in P:
        if not np.all(np.isfinite(p)) or (ax.get_yscale() == "log" and p[1] <= 0):
            continue
        fail(p[0] < x0 - tol * (1 + abs(x0)) or p[0] > x1 + tol * (1 + abs(x1)) or p[1] < y0 - tol * (1 + abs(y0)) or
             p[1] > y1 + tol * (1 + abs(y1)), "{}: the point {} lies outside the limits {}", what, p, (x0, x1, y0, y1))


def band(ax, lo, hi, what):
    """The axes show the region between lo and hi over 1, 2, ... (or no region)."""
    B = [c for c in ax.collections if isinstance(c, mc.PolyCollection) and not isinstance(c, mc.PathCollection)]
    if lo is None:
        fail(len(B) != 0, "{}: a region is shown though none was given", what)
        return
    fail(len(B) != 1, "{}: {} regions", what, len(B))
    fail(not seen(B[0]), "{}: the region is not visible", what)
    k = len(lo)
    if k == 1:
        return               # a region over one index has no area
    P = np.vstack([p.vertices for p in B[0].get_paths()])
    want = np.vstack((np.c_[1:k + 1, lo], np.c_[1:k + 1, hi]))
    for t in want:
        fail(np.min(np.max(np.abs(P - t), axis=1)) > 1e-9, "{}: the region misses {}", what, t)
    for p in P:
        fail(np.min(np.max(np.abs(want - p), axis=1)) > 1e-9, "{}: the region has {} besides", what, p)


def scatter(ax, xy, f, what):
    S = [c for c in ax.collections if isinstance(c, mc.PathCollection)]
    fail(len(S) != 1, "{}: {} scatter plots", what, len(S))
    fail(not seen(S[0]) or not np.all(S[0].get_sizes() > 0), "{}: not visible", what)
    off = np.asarray(S[0].get_offsets(), float)
    fail(off.shape != xy.shape or not np.allclose(off, xy, rtol=1e-12, atol=1e-12), "{}: points {} instead of {}", what, off, xy)
    c = S[0].get_array()
    fail(c is None or not np.allclose(np.asarray(c).ravel(), np.asarray(f).ravel(), rtol=1e-12, atol=1e-12), "{}: colors {} instead of {}", what, c, f)
    v0, v1 = S[0].get_clim()
    fail(not (v0 <= np.min(f) + 1e-12 and v1 >= np.max(f) - 1e-12), "{}: colors range over {} instead of {}", what, (v0, v1), (np.min(f), np.max(f)))
    inside(ax, xy, what)


def titles(ax, label):
    return label in ax.get_title() or label in ax.get_ylabel() or label in ax.get_xlabel()


# ------------------------------------------------------------------------------------------------------- the plots
class Plot(object):
    """call(opts, label) draws; kinds: files; check(figures, label) judges."""

    def __init__(self, desc, fn, args, kinds, check):
        self.desc, self.fn, self.args, self.kinds, self.check = desc, fn, args, kinds, check


def values(k, kind):
    e = {"decay": 10.0 ** -np.arange(k), "flat": np.ones(k), "rough": 1.0 / (1 + (np.arange(k) * 7 % 5)), "large": 1e6 / (1.0 + np.arange(k)) ** 2,
         "small": 1e-9 * (k - np.arange(k))}[kind]
    return e.reshape(k, 1)


def eigenvalue_plots(ks, kinds):
    for k, kind, br in itertools.product(ks, kinds, ("none", "wide", "narrow", "equal", "above", "below", "first", "last")):
        if br in ("above", "below", "first", "last") and kind != "decay":
            continue
        e = values(k, kind)
        e_br = {"none": None, "wide": np.hstack((0.2 * e, 7 * e)), "narrow": np.hstack((0.99 * e, 1.01 * e)), "equal": np.hstack((e, e)), "above": np.hstack((0.9 * e, 5e3 * e)), "below": np.hstack((2e-4 * e, 1.1 * e)),
                "first": np.hstack((np.where(np.arange(k).reshape(k, 1) == 0, 1e-7, 0.9) * e, np.where(np.arange(k).reshape(k, 1) == 0, 1e5, 1.1) * e)),
                "last": np.hstack((np.where(np.arange(k).reshape(k, 1) == k - 1, 1e-7, 0.9) * e, np.where(np.arange(k).reshape(k, 1) == k - 1, 1e5, 1.1) * e))}[br]

        def check(figs, label, e=e, e_br=e_br, k=k):
            fail(len(figs) != 1, "{} figures", len(figs))
            P = panels(figs[0])
            fail(len(P) != 1, "{} axes", len(P))
            fail(P[0].get_yscale() != "log" or P[0].get_xscale() != "linear", "scales {} {}", P[0].get_xscale(), P[0].get_yscale())
            curve(P[0], np.arange(1, k + 1), e, "eigenvalues")
            band(P[0], None if e_br is None else e_br[:, 0], None if e_br is None else e_br[:, 1], "bootstrap range")
            if e_br is not None:
                inside(P[0], np.vstack([np.c_[1:k + 1, e_br[:, i]] for i in (0, 1)]), "bootstrap range")
            fail(not titles(P[0], label), "the label {} is not shown", label)
        args = {"e": e}
        if e_br is not None:
            args["e_br"] = e_br
        yield Plot("eigenvalues {} {} {}".format(k, kind, br), plotters.eigenvalues, args, ["evals"], check)


def error_plots(ks):
    for k, kind in itertools.product(ks, ("rise", "rough", "small", "equal", "first", "last")):
        mean = {"rise": np.linspace(0.1, 0.9, k), "rough": 0.2 + 0.1 * (np.arange(k) * 3 % 5), "small": 1e-6 * (1.0 + np.arange(k)),
                "equal": 0.5 * np.ones(k), "first": 0.01 + 0.001 * np.arange(k), "last": 0.01 + 0.001 * np.arange(k)}[kind]
        d = 0.0 if kind == "equal" else 0.3
        B = np.c_[mean * (1 - d), mean, np.minimum(1, mean * (1 + d))]
        if kind in ("first", "last"):
            B[0 if kind == "first" else -1] = 1e-7, mean[0 if kind == "first" else -1], 0.97

        def check(figs, label, B=B, k=k):
            fail(len(figs) != 1, "{} figures", len(figs))
            P = panels(figs[0])
            fail(len(P) != 1, "{} axes", len(P))
            fail(P[0].get_yscale() != "log", "scale {}", P[0].get_yscale())
            curve(P[0], np.arange(1, k + 1), B[:, 1], "subspace errors")
            band(P[0], B[:, 0], B[:, 2], "bootstrap range")
            inside(P[0], np.vstack([np.c_[1:k + 1, B[:, i]] for i in (0, 2)]), "bootstrap range")
            fail(not titles(P[0], label), "the label {} is not shown", label)
        yield Plot("subspace errors {} {}".format(k, kind), plotters.subspace_errors, {"sub_br": B}, ["subspace"], check)


def vector_plots(ms, ns):
    for m, n, br, lab in itertools.product(ms, ns, (False, True), (False, True)):
        if n > m:
            continue
        W = data.ortho(m, 0.3)[:, :n]
        lo = np.maximum(-1, W - 0.01 * (1 + np.arange(m * n).reshape(m, n)))
        hi = np.minimum(1, W + 0.02 * (1 + np.arange(m * n).reshape(m, n)))
        W_br = np.stack((lo, hi), axis=2).reshape(m, 2 * n) if br else None
        names = ["in{}".format(chr(97 + i)) for i in range(m)] if lab else None

        def check(figs, label, W=W, lo=lo, hi=hi, br=br, names=names, m=m, n=n):
            fail(len(figs) != 1, "{} figures", len(figs))
            P = panels(figs[0])
            fail(len(P) != min(n, 4), "{} panels for {} eigenvectors", len(P), n)
            overlap(figs[0], "panels")
            for i, ax in enumerate(P):
                curve(ax, np.arange(1, m + 1), W[:, i], "eigenvector {}".format(i + 1))
                band(ax, lo[:, i] if br else None, hi[:, i] if br else None, "range of eigenvector {}".format(i + 1))
                if br:
                    inside(ax, np.vstack((np.c_[1:m + 1, lo[:, i]], np.c_[1:m + 1, hi[:, i]])), "range")
                fail(str(i + 1) not in ax.get_title() + ax.get_ylabel(), "panel {} is named {}", i + 1, ax.get_title())
                fail(any(str(j + 1) in (ax.get_title() + ax.get_ylabel()).replace(label, "") for j in range(4) if j != i), "panel {} is named {}", i + 1, ax.get_title())
            fail(not any(titles(ax, label) for ax in P), "the label {} is not shown", label)
            if names:
                figs[0].canvas.draw()
                found = 0
                for ax in P:
                    t = {round(float(p), 9): str(s.get_text()) for p, s in zip(ax.get_xticks(), ax.get_xticklabels())}
                    if any(v in names for v in t.values()):
                        found += 1
                        fail(any(t.get(float(i + 1)) != names[i] for i in range(m)), "labels {} instead of {}", t, names)
                fail(not found, "the labels of the inputs are not shown")
        args = {"W": W}
        if br:
            args["W_br"] = W_br
        if lab:
            args["in_labels"] = names
        yield Plot("eigenvectors {} {} {} {}".format(m, n, br, lab), plotters.eigenvectors, args, ["evecs"], check)


def summary_plots(Ms):
    for M, n, kind in itertools.product(Ms, (1, 2), ("centered", "positive", "negative", "wide", "zero")):
        y = data.weyl(M, n, 2.0)
        y = {"centered": y, "positive": y + 3, "negative": y - 5, "wide": y * np.array([1.0, 40.0])[:n], "zero": np.abs(np.round(2 * y))}[kind]
        f = np.round(3 * data.weyl(M, 1, 5.0), 1) * {"centered": 1, "positive": 1e4, "negative": 1e-4, "wide": 1e9, "zero": 1}[kind]
        if kind == "zero" and n == 2 and np.max(y) == np.min(y):
            continue

        def check(figs, label, y=y, f=f, n=n):
            fail(len(figs) != n, "{} figures for {} active variables", len(figs), n)
            P = panels(figs[0])
            fail(len(P) != 1, "{} axes", len(P))
            curve(P[0], y[:, 0], f, "summary plot")
            fail(not titles(P[0], label), "the label {} is not shown", label)
            if n == 2:
                P = panels(figs[1])
                overlap(figs[1], "bivariate summary plot")
                fail(len(P) != 1, "{} axes in the bivariate plot", len(P))
                scatter(P[0], y, f, "bivariate summary plot")
                fail(not titles(P[0], label), "the label {} is not shown", label)
                fail(len(figs[1].axes) != 2, "no color bar")
        yield Plot("summary {} {} {}".format(M, n, kind), plotters.sufficient_summary, {"y": y, "f": f}, ["ssp1", "ssp2"][:n], check)


def zonotope_plots(ms, Ds=(0, 1, 4), Ys=(0, 1, 5)):
    V = [("zonotope {}".format(m), seeded(lambda: domains.BoundedActiveVariableDomain(make_subspaces(data.ortho(m, 0.4), n=2))).vertY) for m in ms]
    V += [("triangle", np.array([[1.0, 1], [4, 1], [1, 3]])), ("left", np.array([[-5.0, -2], [-3, -2], [-3, -4], [-5, -4]])),
          ("square", np.array([[1.0, 1], [-1, 1], [-1, -1], [1, -1]]))]
    for (nm, v), D, Y in itertools.product(V, Ds, Ys):
        c = np.mean(v, axis=0)
        # distinct points inside: mixtures of the vertices
        design = np.array([c + 0.6 * (0.7 * v[i % len(v)] + 0.3 * v[(i + 1) % len(v)] - c) / (1 + 0.3 * i) for i in range(D)]) if D else None
        y = np.array([c + 0.5 * (v[i % len(v)] - c) / (1 + i) for i in range(Y)]) if Y else None
        f = np.round(data.weyl(Y, 1, 4.0), 2) * (1e5 if D else 1) if Y else None

        def check(figs, label, v=v, design=design, y=y, f=f):
            fail(len(figs) != 1, "{} figures", len(figs))
            P = panels(figs[0])
            fail(len(P) != 1, "{} axes", len(P))
            ax = P[0]
            overlap(figs[0], "zonotope plot")
            seg = []
            for c in ax.collections:
                if isinstance(c, mc.LineCollection):
                    seg += [tuple(sorted(map(tuple, np.round(s, 9) + 0.0))) for s in c.get_segments()]
            ch = ConvexHull(v)
            want = [tuple(sorted(map(tuple, np.round(v[s], 9) + 0.0))) for s in ch.simplices]
            fail(sorted(set(seg)) != sorted(set(want)), "edges {} instead of {}", sorted(set(seg)), sorted(set(want)))
            pts = set()
            for ln in ax.lines:
                if ln.get_visible():
                    xy = np.ma.filled(np.ma.asarray(ln.get_xydata(), float), np.nan)
                    pts |= set(map(tuple, np.round(xy[np.all(np.isfinite(xy), axis=1)], 9) + 0.0))
            want = v if design is None else np.vstack((v, design))
            fail(pts != set(map(tuple, np.round(want, 9) + 0.0)), "points {} instead of {}", sorted(pts), want)
            inside(ax, want, "zonotope")
            if y is None:
                fail(any(isinstance(c, mc.PathCollection) for c in ax.collections), "points that were not given")
            else:
                scatter(ax, y, f, "points in the zonotope")
                fail(not titles(ax, label), "the label {} is not shown", label)
        args = {"vertices": v}
        if D:
            args["design"] = design
        if Y:
            args["y"], args["f"] = y, f
        yield Plot("{} {} {}".format(nm, D, Y), plotters.zonotope_2d_plot, args, ["zonotope_2d"], check)


def plots(big):
    out = {}
    out["eigenvalues"] = list(eigenvalue_plots((1, 2, 3, 5, 8) if big else (1, 2, 5), ("decay", "flat", "rough", "large", "small")))
    out["errors"] = list(error_plots((1, 2, 3, 4, 7) if big else (1, 2, 4)))
    out["eigenvectors"] = list(vector_plots((2, 3, 4, 5, 7, 10) if big else (2, 4, 6), (1, 2, 3, 4, 5, 6, 7) if big else (1, 2, 3, 4, 5)))
    out["summary"] = list(summary_plots((1, 2, 3, 9, 30) if big else (1, 2, 9)))
    out["zonotopes"] = list(zonotope_plots((3, 4, 5, 6, 8) if big else (3, 5)))
    return out


# ------------------------------------------------------------------------------------------------------- executing
class Scratch(object):
    """A directory of its own, and the figures and show of a session."""

    def __init__(self, closes):
        self.closes = closes

    def __enter__(self):
        self.old, self.dir = os.getcwd(), tempfile.mkdtemp(dir=os.getcwd())
        os.chdir(self.dir)
        plt.close("all")
        self.show = Shown(self.closes)
        self.real, plt.show = plt.show, self.show
        del SAVED[:]
        return self

    def __exit__(self, *a):
        plt.show = self.real
        plt.close("all")
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)

    def files(self):
        out = []
        for d, _, fs in os.walk("."):
            out += [os.path.normpath(os.path.join(d, f)) for f in fs]
        return sorted(out)


OPTIONS = [("none", None), ("save png", (True, ".png")), ("save pdf", (True, ".pdf")), ("no save", (False, ".png"))]


def larger():
    """Numbers of eigenvalues, variables and points at which a plot could leave some out."""
    out = list(eigenvalue_plots((9, 10, 11, 12, 16, 26, 33, 60, 101, 301), ("decay", "rough")))
    out += list(error_plots((9, 10, 11, 12, 16, 26, 33, 60, 101, 301)))
    out += list(vector_plots((8, 9, 10, 11, 12, 13, 17, 21, 26, 33, 41, 51, 65, 101, 129, 201), (1, 2, 3, 4, 6)))
    out += list(summary_plots((20, 50, 51, 64, 101, 257, 500, 1001, 2001, 5003)))
    out += list(zonotope_plots((10, 20, 33), (0, 33, 101), (0, 51, 257, 1031)))[:36]
    return out


def many(ctx, part, of):
    for i, p in enumerate(larger()[part::of]):
        with ctx.case({"plot": p.desc}):
            with Scratch(False) as s:
                o = (i % 4 == 0, ".png")
                call(p, make_opts(o), "large")
                p.check([plt.figure(n) for n in plt.get_fignums()], "large")
                fail(s.files() != sorted(expected(p, o, "large")), "files {}", s.files())
                ctx.state(p.desc)


def make_opts(o):
    return None if o is None else plotters.plot_opts(savefigs=o[0], figtype=o[1])


def call(p, opts, label):
    kw = dict(p.args)
    if opts is not None:
        kw["opts"] = opts
    if label is not None:
        kw["out_label"] = label
    before = snapshot(kw)
    p.fn(**kw)
    fail(snapshot(kw) != before, "an argument was changed")


def expected(p, o, label):
    if o is not None and not o[0]:
        return []
    return ["figs/{}_{}{}".format(k, label or "Output", ".eps" if o is None else o[1]) for k in p.kinds]


def one(ctx, group, part, of, big):
    for p in plots(big)[group][part::of]:
        for (on, o), label, closes in itertools.product(OPTIONS, (None, "QoI 7"), (False, True)):
            if not big and ((o is None and label is not None) or (closes and label is not None)):
                continue
            with ctx.case({"plot": p.desc, "options": on, "label": label, "show closes figures": closes}):
                with Scratch(closes) as s:
                    call(p, make_opts(o), label)
                    fail(len(s.show.calls) == 0, "nothing is shown")
                    seen = {}
                    for c in s.show.calls:
                        for n, f in c:
                            seen[n] = f
                    figs = [seen[n] for n in sorted(seen)]
                    p.check(figs, label or "Output")
                    fail(s.files() != sorted(expected(p, o, label)), "files {} instead of {}", s.files(), expected(p, o, label))
                    for f in s.files():
                        fail(os.path.getsize(f) == 0, "empty file {}", f)
                    for f, d in SAVED:
                        i = expected(p, o, label).index(os.path.normpath(f))
                        fail(d != digest(figs[i]), "the saved figure {} is not the one shown", f)
                    ctx.state(p.desc, on, label, digest(figs[-1]))


def sequences(ctx, length, first, big):
    """Several plots: earlier figures and files stay."""
    P = plots(False)
    pick = [P["eigenvalues"][2], P["errors"][-1], P["eigenvectors"][9], P["summary"][-1], P["zonotopes"][4]]
    words = [w for w in itertools.product(range(len(pick)), repeat=length) if w[0] == first]
    for w in words:
        for labels in (["a"] * length, ["l{}".format(i) for i in range(length)]):
            with ctx.case({"plots": [pick[i].desc for i in w], "labels": labels}):
                with Scratch(False) as s:
                    opts = plotters.plot_opts(True, ".png")
                    keep = snapshot(opts)
                    known, files, before = {}, set(), 0
                    for i, lb in zip(w, labels):
                        p = pick[i]
                        call(p, opts, lb)
                        fail(snapshot(opts) != keep, "the options were changed")
                        nums = plt.get_fignums()
                        new = [n for n in nums if n not in known]
                        for n, d in known.items():
                            fail(n not in nums, "figure {} was closed", n)
                            fail(digest(plt.figure(n)) != d, "figure {} was changed by a later plot", n)
                        p.check([plt.figure(n) for n in new], lb)
                        known.update({n: digest(plt.figure(n)) for n in new})
                        files |= set(expected(p, (True, ".png"), lb))
                        fail(s.files() != sorted(files), "files {} instead of {}", s.files(), sorted(files))
                        ctx.count("transitions")
                    ctx.state(w, labels)


def options(ctx):
    for save, t, exists in itertools.product((True, False), (".png", ".eps", ".pdf", ".jpg"), (False, True)):
        with ctx.case({"savefigs": save, "figtype": t, "directory exists": exists}):
            with Scratch(False) as s:
                if exists:
                    os.mkdir("figs")
                    open("figs/mine.txt", "w").write("x")
                for rep in range(2):
                    o = plotters.plot_opts(savefigs=save, figtype=t)
                    fail(o["figtype"] != t or o["savefigs"] is not save, "options {}", o)
                    fail(os.path.isdir("figs") != (save or exists), "directory figs: {}", os.path.isdir("figs"))
                    fail(s.files() != (["figs/mine.txt"] if exists else []), "files {}", s.files())
                ctx.state(save, t, exists)
    with ctx.case({"default options": True}):
        with Scratch(False):
            o = plotters.plot_opts()
            fail(o["figtype"] != ".eps" or o["savefigs"] is not True, "default options {}", o)
            a, b = plotters.plot_opts(), plotters.plot_opts()
            a["figtype"] = "x"
            fail(b["figtype"] != ".eps" or plotters.plot_opts()["figtype"] != ".eps", "options are shared")


def jobs(tier):
    big = tier == "thorough"
    J = [Job("options", options)]
    for g, k in (("eigenvalues", 4), ("errors", 2), ("eigenvectors", 6), ("summary", 4), ("zonotopes", 6)):
        k = 2 * k if big else k
        J += [Job("{} {}".format(g, i), one, g, i, k, big) for i in range(k)]
    for i in range(12):
        J.append(Job("larger {}".format(i), many, i, 12))
    for f in range(5):
        J.append(Job("sequences {}".format(f), sequences, 3 if big else 2, f, big))
    return J
