"""The catalogue's operations with a past: the same arrays and objects after they were changed in place, and other operations before.

The reference for every call is the same call on fresh copies in a process of its own, forked before anything was called.
"""
import os
import pickle

import numpy as np

import data
from core import Job, close, fail
from ops import AGAIN, LARGE, OPS, flat

GROUPS = {
    "C01": ("active_subspace", "sorted_eigh", "Subspaces.compute AS", "Subspaces.compute 40", "Subspaces.compute 101"),
    "C02": ("ols_subspace", "qphd_subspace", "Subspaces.compute OLS", "Subspaces.compute QPHD"),
    "C03": ("opg_subspace", "local_linear_gradients", "Subspaces.compute OPG"),
    "C04": ("Subspaces.compute AS bootstrap", "Subspaces.compute OLS bootstrap", "Subspaces.compute QPHD bootstrap",
            "Subspaces.compute bootstrap"),
    "C05": ("Subspaces.",),
    "C06": ("eig_partition", "errbnd_partition", "ladle_partition", "Subspaces.compute AS bootstrap"),
    "C07": ("interval_endpoints", "zonotope_vertices", "unique_rows", "nzv", "BoundedActiveVariableDomain"),
    "C08": ("forward", "inverse"),
    "C09": ("sample_z", "hit_and_run_z", "random_walk_z", "rejection_sampling_z"),
    "C10": ("BoundedNormalizer", "UnboundedNormalizer"),
    "C11": ("gauss_hermite (", "gauss_hermite", "gauss_legendre", "one-dimensional", "jacobi", "recurrence", "gh1d", "gl1d", "tensor"),
    "C12": ("quadrature_rule", "av_quadrature_rule", "integrate", "av_integrate"),
    "C13": ("SimulationRunner", "SimulationGradientRunner", "finite_difference_gradients"),
    "C14": ("conditional_expectations", "interface"),
    "C15": ("PolynomialApproximation", "polynomial_bases", "index_set"),
    "C16": ("RadialBasisApproximation", "exponential_squared"),
    "C17": ("surface",),
    "C18": ("linear_program", "quadratic_program"),
    "C19": ("av_minimize", "minimize"),
    "C20": ("minimizing map",),
    "C21": ("",),
    "C22": ("",),
    "C25": ("interval_design", "gauss_hermite_design", "maximin_design", "av_design"),
}


def group(prop):
    return [op for op in OPS + LARGE + AGAIN if op.name.startswith(GROUPS[prop])]


def apart(fn):
    """The result of fn() in a process of its own: ("ok", arrays) or ("raised", type name)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(outcome(fn), f, 4)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    fail(not raw, "the process running the operation died")
    return pickle.loads(raw)


def outcome(fn):
    try:
        return "ok", [np.array(v) for v in flat(fn())]
    except Exception as e:
        return "raised", type(e).__name__


def seeded(op, a, o):
    np.random.seed(20)
    return op.run(a, o)


def compare(got, want, tol, what):
    fail(got[0] != want[0], "{}: {} instead of {}", what, got, want)
    if got[0] == "raised":
        return
    fail(len(got[1]) != len(want[1]), "{}: {} results instead of {}", what, len(got[1]), len(want[1]))
    for u, v in zip(got[1], want[1]):
        if u.shape != v.shape or not np.array_equal(u, v, equal_nan=u.dtype.kind == "f" and v.dtype.kind == "f"):
            close(u, v, tol, what=what)


def _reverse(a):
    a[...] = a[::-1].copy()


def _double(a):
    a *= 2


def _middle(a):
    if a.size:
        a.flat[a.size // 2] += 1


def _swap(a):
    if a.ndim and a.shape[0] > 2:
        a[[0, 1]] = a[[1, 0]].copy()


def _new(a):
    """Other values of the same sizes, signs and magnitude."""
    if a.size:
        a[...] = np.roll(a.ravel(), 1).reshape(a.shape)


CHANGES = (("reversed", _reverse), ("doubled", _double), ("one entry", _middle), ("two rows swapped", _swap), ("rolled", _new))


def rotate(o):
    """Another basis for the same subspaces object."""
    d = o["map"].domain
    s = d.subspaces
    n = s.W1.shape[1]
    s.eigenvecs = data.ortho(s.eigenvecs.shape[0], 1.5)
    s.partition(n)
    if hasattr(d, "compute_boundary"):
        np.random.seed(3)
        d.compute_boundary()


def repartition(o):
    d = o["map"].domain
    s = d.subspaces
    m, n = s.W1.shape
    s.partition(1 if n > 1 else 2)
    if hasattr(d, "compute_boundary"):
        np.random.seed(3)
        d.compute_boundary()


def mutated(ctx, ops):
    """Call, change one argument in place, call again with the same array objects."""
    for op in ops:
        base = op.arrays()
        for label, change in CHANGES:
            for k in sorted(base):
                with ctx.case({"operation": op.name, "argument": k, "changed in place": label}):
                    def fresh():
                        a = op.arrays()
                        change(a[k])
                        return seeded(op, a, op.objs(a) if op.objs else None)

                    def after():
                        a = op.arrays()
                        o = op.objs(a) if op.objs else None
                        outcome(lambda: seeded(op, a, o))
                        change(a[k])
                        return seeded(op, a, o)
                    compare(apart(after), apart(fresh), op.tol, "second call")
                    ctx.state(op.name, k, label)
                    ctx.count("transitions", 2)
        a = op.arrays()
        o = op.objs(a) if op.objs else {}
        if "map" not in o:
            continue
        for label, change in (("basis", rotate), ("dimension", repartition)):
            with ctx.case({"operation": op.name, "changed in place": label}):
                def fresh():
                    a = op.arrays()
                    o = op.objs(a)
                    change(o)
                    return seeded(op, a, o)

                def after():
                    a = op.arrays()
                    o = op.objs(a)
                    outcome(lambda: seeded(op, a, o))
                    change(o)
                    return seeded(op, a, o)
                want = apart(fresh)
                if want[0] == "raised":
                    ctx.count("skipped")                 # the arguments do not fit the new dimension
                    continue
                compare(apart(after), want, op.tol, "call after the subspaces changed")
                ctx.state(op.name, label)
                ctx.count("transitions", 2)


def orders(ctx, ops, starts, reach):
    """The operations one after another in one process, beginning with each of them."""
    alone = {}

    def call(op):
        a = op.arrays()
        return seeded(op, a, op.objs(a) if op.objs else None)
    for i in starts:
        line = [ops[(i + j) % len(ops)] for j in range(min(reach, len(ops)))]
        for direction, seq in (("forward", line), ("backward", [line[0]] + line[:0:-1])):
            with ctx.case({"first": line[0].name, "direction": direction}):
                for op in seq:
                    if op.name not in alone:
                        alone[op.name] = apart(lambda: call(op))
                got = apart_list([lambda op=op: call(op) for op in seq])
                for op, r in zip(seq, got):
                    compare(r, alone[op.name], op.tol, op.name)
                    ctx.count("transitions")
                ctx.state([op.name for op in seq])


def apart_list(fns):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump([outcome(fn) for fn in fns], f, 4)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    fail(not raw, "the process running the operations died")
    return pickle.loads(raw)


def jobs(prop, tier, parts=4, reach=40):
    ops = [op for op in group(prop) if not op.slow or tier == "thorough"]
    J = []
    for i in range(parts):
        mine = ops[i::parts]
        if mine:
            J.append(Job("changed in place {}".format(i), mutated, mine))
        if mine and reach:
            J.append(Job("orders {}".format(i), orders, ops, list(range(i, len(ops), parts)), reach if tier == "quick" else len(ops)))
    return J
