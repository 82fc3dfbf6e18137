"""C21: the only source of randomness is numpy's global generator, and deterministic operations leave it alone."""
import itertools
import os
import pickle
import subprocess
import sys

import numpy as np

import data
import history
import sut
from core import VERIF, Job, close, fail, same
from ops import FAILING, LARGE, OPS, flat
from sut import designs, gradients, optimizers, simrunners

LEVEL = "model_checking"
RULE = ("every public operation of a catalogue from several states of the generator, twice each; every ordered pair of "
        "operations, failing ones included, in one process against the second one alone in a fresh process; every position of "
        "a fault in the operations that call the user; every failing local search; separate processes")
ASSUMPTIONS = ["results are compared to 1e-9 relative, because memory alignment may change the last bits of sums",
               "states of the generator are those reached by a few seeds and draws, a cached normal draw included"]


def states():
    yield "seed 0", lambda: np.random.seed(0)
    yield "seed 42", lambda: np.random.seed(42)

    def cached():
        np.random.seed(7)
        np.random.set_state(np.random.get_state()[:3] + (1, 0.125))
    yield "cached normal draw", cached

    def late():
        np.random.seed(11)
        np.random.uniform(size=311)
    yield "late", late


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4] if s[3] else None)


def equal(r, want, tol, what):
    r, want = flat(r), flat(want)
    fail(len(r) != len(want), "{}: {} results instead of {}", what, len(r), len(want))
    for a, b in zip(r, want):
        if a.shape != b.shape or not np.array_equal(a, b):
            close(a, b, tol, what=what)


def alone(op, k=0):
    a = op.arrays()
    o = op.objs(a) if op.objs else None
    list(states())[k][1]()
    return [np.array(v) for v in flat(op.run(a, o))]


def repeat(ctx, op):
    first = None
    for k, (name, setit) in enumerate(states()):
        with ctx.case({"operation": op.name, "state": name}):
            ref = alone(op, k)
            for again in range(2):
                a = op.arrays()
                o = op.objs(a) if op.objs else None
                setit()
                before = state()
                r = op.run(a, o)
                if not op.random:
                    fail(state() != before, "the state of the generator changed")
                equal(r, ref, 1e-9, "same operation from the same state")
            if not op.random:
                first = ref if first is None else first
                equal(ref, first, 1e-9, "deterministic operation from another state")
            ctx.state(op.name, *ref)
            ctx.count("transitions", 3)


def repeat_all(ctx, ops):
    for op in ops:
        repeat(ctx, op)


def pairs_all(ctx, ops):
    """Large operations one after another, and small ones after them."""
    for i, op in enumerate(ops):
        pairs(ctx, op, [ops[i - 1]])
    for op in OPS[::7]:
        pairs(ctx, op, ops)


def pairs(ctx, op, others):
    ref = alone(op)
    for other in others:
        with ctx.case({"operation": op.name, "after": other.name}):
            a = other.arrays()
            np.random.seed(123)
            try:
                other.run(a)
            except Exception:
                if other not in FAILING:
                    raise
            equal(alone(op), ref, 1e-9, "result after {}".format(other.name))
            ctx.state(op.name, other.name)
            ctx.count("transitions")


def failures(ctx):
    for op in FAILING:
        for name, setit in states():
            with ctx.case({"operation": op.name, "state": name}):
                a = op.arrays()
                o = op.objs(a) if op.objs else None
                setit()
                before = state()
                try:
                    op.run(a, o)
                except Exception:
                    pass
                fail(state() != before and not op.random, "a failed operation changed the state of the generator")
                ctx.state(op.name, name)
                ctx.count("transitions")


class Stop(BaseException):
    pass


def faults(ctx, depth):
    """The user's function raises at its k-th call, for every k."""
    from ops import amap, dquad, quad
    X = np.round(3 * data.weyl(3, 2))
    calls = []
    for kind, m, n in (("bounded", 3, 1), ("bounded", 3, 2), ("unbounded", 3, 1), ("unbounded", 3, 2)):
        dom = amap(kind, m, n).domain
        for grad in (False, True):
            calls.append(("av_minimize {} {} {}".format(kind, n, grad),
                          lambda f, dom=dom, grad=grad: optimizers.av_minimize(f, dom, (lambda y: dquad(y).ravel()) if grad else None)))
    calls.append(("finite differences", lambda f: gradients.finite_difference_gradients(X, f)))
    calls.append(("simulations", lambda f: simrunners.SimulationRunner(f).run(X)))
    for (name, run), exc in itertools.product(calls, (RuntimeError, Stop)):
        for k in range(1, depth):
            done = False
            with ctx.case({"operation": name, "fault at call": k, "exception": exc.__name__}):
                count = [0]

                def f(x):
                    count[0] += 1
                    if count[0] == k:
                        raise exc("fault")
                    return quad(x)
                list(states())[2][1]()
                before = state()
                try:
                    run(f)
                    done = True
                except exc:
                    ctx.count("faults")
                fail(state() != before, "the state of the generator changed")
                ctx.state(name, k)
                ctx.count("transitions")
            if done:
                break


def searches(ctx):
    """Local searches that fail at the k-th start."""
    from ops import amap, quad
    runs = [("maximin_design", lambda: designs.maximin_design(np.array([[0.0, 0], [4, 0], [5, 3], [2, 5]]), 2))]
    for kind, m, n in (("bounded", 3, 2), ("unbounded", 3, 2)):
        runs.append(("av_minimize " + kind, lambda d=amap(kind, m, n).domain: optimizers.av_minimize(quad, d)))
    for name, run in runs:
        for k, all_later in itertools.product(range(12), (False, True)):
            with ctx.case({"operation": name, "failing search": k, "later ones too": all_later}):
                at = itertools.count()

                def model(real, *a, **kw):
                    r = real(*a, **kw)
                    i = next(at)
                    if i == k or (all_later and i > k):
                        r.success, r.status, r.message = False, 8, "no"
                    return r
                np.random.seed(5)
                before = state()
                with sut.local_solver(model):
                    try:
                        run()
                    except Exception:
                        ctx.count("faults")
                fail(state() != before, "the state of the generator changed")
                ctx.state(name, k)
                ctx.count("transitions")


def dump():
    """Results of all operations, for a process started anew."""
    out = {}
    for op in OPS:
        out[op.name] = alone(op)
    return out


def processes(ctx):
    prog = ("import sys; sys.path[:0] = ['/repo', %r, %r]; import core, pickle, os; fd = os.dup(1); os.dup2(2, 1); import c21; "
            "os.write(fd, b''); f = os.fdopen(fd, 'wb'); f.write(pickle.dumps(c21.dump())); f.close()"
            % (os.path.join(VERIF, "mc"), os.path.join(VERIF, "checks")))
    res = []
    for seed, env in (("0", {}), ("77", {"TZ": "Asia/Tokyo", "USER": "someone"})):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", prog], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, PYTHONHASHSEED=seed, **env))
        if p.returncode:
            with ctx.case({"process": seed}):
                fail(True, "the process ended with exit code {}", p.returncode)
            return
        res.append(pickle.loads(p.stdout))
    for op in OPS:
        with ctx.case({"operation": op.name, "processes": 2}):
            equal(res[0][op.name], res[1][op.name], 1e-9, "two processes")
            equal(alone(op), res[0][op.name], 1e-9, "this process")
            ctx.state(op.name)
            ctx.count("transitions")


def jobs(tier):
    big = tier == "thorough"
    J = [Job("failures", failures), Job("faults", faults, 400 if big else 60), Job("searches", searches),
         Job("processes", processes, timeout=300)]
    for op in OPS:
        J.append(Job("repeat " + op.name, repeat, op))
    k = 8
    for i in range(k):
        J.append(Job("repeat larger {}".format(i), repeat_all, LARGE[i::k]))
        J.append(Job("larger after others {}".format(i), pairs_all, LARGE[i::k]))
    for op in OPS:
        J.append(Job("after others " + op.name, pairs, op, OPS + FAILING))
    J += history.jobs("C21", tier, parts=8, reach=12)
    return J
