"""Core of the model checker: controlled randomness, choice-point exploration, case isolation, reporting.

A check is a module in /verif/checks with
    LEVEL, RULE, ASSUMPTIONS and jobs(tier) -> list of Job.
A Job is one independent, completely enumerated part of the bounded space; jobs are spread over worker processes.
Everything is deterministic: the only nondeterminism of the code under test, numpy's global generator and the answers
of the caller's functions, is decided by the explorer.
"""
import collections
import contextlib
import hashlib
import itertools
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("MPLBACKEND", "agg")
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
MAX_REPORTED = int(os.environ.get("VERIF_REPORT", "5"))


# ----------------------------------------------------------------------------------------------- controlled random
class RNGControl:
    """Answers to draws from numpy's global generator.

    While `policy` is None the real generator answers.  Otherwise policy(kind, params, shape) returns the array of
    answers, with kind one of 'normal' (answers are standard normal values, scaled here), 'uniform' (answers in
    [0,1), scaled here) and 'int' (answers are integers in range(params[0])).
    Every answer is in the support of the distribution asked for, so every explored execution is a possible one.
    """

    def __init__(self):
        self.policy = None
        self.log = []
        self.real = {}

    def _shape(self, size):
        if size is None:
            return ()
        if np.ndim(size) == 0:
            return (int(size),)
        return tuple(int(s) for s in size)

    def ask(self, kind, params, shape):
        n = int(np.prod(shape)) if len(shape) else 1
        ans = np.asarray(self.policy(kind, params, (n,) if not shape else shape))
        if kind == "int":
            ans = ans.astype(np.int64)
        else:
            ans = ans.astype(float)
        ans = ans.reshape(shape if shape else ())
        self.log.append((kind, params, shape, ans.copy()))
        return ans


CTL = RNGControl()


def _install_rng():
    r = np.random
    real = {}

    def unwrap(a):
        return a if a.ndim else a[()]

    def norm(loc=0.0, scale=1.0, size=None):
        shape = CTL._shape(size) if size is not None else np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return unwrap(np.asarray(loc + scale * CTL.ask("normal", None, shape)))

    def unif(low=0.0, high=1.0, size=None):
        shape = CTL._shape(size) if size is not None else np.broadcast(np.asarray(low), np.asarray(high)).shape
        u = CTL.ask("uniform", None, shape)
        return unwrap(np.asarray(low + (np.asarray(high) - low) * u))

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            low, high = np.broadcast_arrays(low, high)
            out = np.array([low.flat[i] + int(CTL.ask("int", (int(high.flat[i] - low.flat[i]),), ()))
                            for i in range(low.size)]).reshape(low.shape)
            return out
        if high <= low:
            raise ValueError("low >= high")
        a = CTL.ask("int", (int(high - low),), CTL._shape(size))
        out = (a + int(low)).astype(dtype)
        return int(out) if size is None else out

    def choice(a, size=None, replace=True, p=None):
        pop = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        shape = CTL._shape(size)
        k = int(np.prod(shape)) if shape else 1
        if p is not None:
            allowed = np.nonzero(np.asarray(p) > 0)[0]
        else:
            allowed = np.arange(len(pop))
        if replace:
            idx = allowed[np.atleast_1d(CTL.ask("int", (len(allowed),), (k,)))]
        else:
            rest, idx = list(allowed), []
            for _ in range(k):
                idx.append(rest.pop(int(CTL.ask("int", (len(rest),), ()))))
            idx = np.array(idx, dtype=int)
        out = pop[idx]
        return out.reshape(shape + out.shape[1:]) if shape else out[0]

    def permutation(x):
        pop = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return choice(pop, size=len(pop), replace=False) if np.ndim(pop) == 1 else pop[
            choice(len(pop), size=len(pop), replace=False)]

    def shuffle(x):
        x[...] = np.array(x)[choice(len(x), size=len(x), replace=False)]

    def mvn(mean, cov, size=None, *a, **k):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        w, V = np.linalg.eigh(cov)
        shape = CTL._shape(size)
        z = CTL.ask("normal", None, shape + (mean.size,))
        return mean + np.dot(z * np.sqrt(np.maximum(w, 0)), V.T)

    table = {
        "normal": norm,
        "standard_normal": lambda size=None: norm(size=size),
        "randn": lambda *s: norm(size=s if s else None),
        "uniform": unif,
        "random_sample": lambda size=None: unif(size=size),
        "random": lambda size=None: unif(size=size),
        "ranf": lambda size=None: unif(size=size),
        "sample": lambda size=None: unif(size=size),
        "rand": lambda *s: unif(size=s if s else None),
        "randint": randint,
        "random_integers": lambda low, high=None, size=None: (
            randint(1, low + 1, size) if high is None else randint(low, high + 1, size)),
        "choice": choice,
        "permutation": permutation,
        "shuffle": shuffle,
        "multivariate_normal": mvn,
    }
    for name, fake in table.items():
        if not hasattr(r, name):
            continue
        real[name] = getattr(r, name)

        def mk(name=name, fake=fake):
            orig = real[name]

            def dispatch(*a, **k):
                if CTL.policy is None:
                    return orig(*a, **k)
                return fake(*a, **k)
            dispatch.__name__ = name
            return dispatch
        setattr(r, name, mk())
    CTL.real = real


_install_rng()


@contextlib.contextmanager
def scripted(policy):
    """Run with numpy's global generator answering by policy(kind, params, shape)."""
    old, oldlog = CTL.policy, CTL.log
    CTL.policy, CTL.log = policy, []
    try:
        yield CTL
    finally:
        CTL.policy, CTL.log = old, oldlog


def index_answers(kind, params, idx, k):
    """Answers that pick the given samples out of k, whether integers or uniform numbers are drawn."""
    if kind == "int":
        return np.array([i % params[0] for i in idx])
    if kind == "uniform":
        return (np.array([i % k for i in idx]) + 0.5) / k
    raise Violation("a choice of samples drew {} numbers".format(kind))


# ------------------------------------------------------------------------------------------------------ exploration
class Divergence(Exception):
    pass


class Chooser:
    """One execution: replays a prefix of choices, then takes alternative 0 everywhere."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # (number of alternatives, choice, cost per deviation, label)

    def choose(self, n, label="", cost=1):
        i = len(self.trace)
        if i < len(self.prefix):
            c, n0, l0 = self.prefix[i]
            if n0 != n or l0 != label:
                raise Divergence("replay of choice {}: had {} alternatives at {!r}, now {} at {!r}".format(
                    i, n0, l0, n, label))
        else:
            c = 0
        self.trace.append((n, c, cost, label))
        return c

    def pick(self, alternatives, label="", cost=1):
        return alternatives[self.choose(len(alternatives), label, cost)]


def explore(run, bound=None, stats=None, limit=None):
    """Depth-first enumeration of all executions of run(chooser) with at most `bound` deviations from the default.

    Yields (choices, result of run).  bound=None is unbounded, i.e. every combination of answers.
    """
    stack = [[]]
    done = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        if len(ch.trace) < len(prefix):
            raise Divergence("replay ended after {} of {} choices".format(len(ch.trace), len(prefix)))
        done += 1
        if stats is not None:
            stats["executions"] += 1
            stats["choices"] += len(ch.trace) - max(len(prefix) - 1, 0)
        yield [c for _, c, _, _ in ch.trace], res
        if limit is not None and done >= limit:
            if stats is not None:
                stats["capped"] = stats.get("capped", 0) + len(stack)
            return
        used = sum(cost for _, c, cost, _ in ch.trace[:len(prefix)] if c)
        new = []
        for i in range(len(prefix), len(ch.trace)):
            n, _, cost, _ = ch.trace[i]
            if bound is not None and used + cost > bound:
                continue
            for alt in range(1, n):
                new.append([(c, k, l) for k, c, _, l in ch.trace[:i]] + [(alt, n, ch.trace[i][3])])
        stack.extend(reversed(new))


# --------------------------------------------------------------------------------------------------------- reporting
class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """Raised by oracles."""


def _jsonable(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {"array": list(o.shape), "head": _jsonable(o.ravel()[:40].tolist()),
                    "sha1": hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest()}
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_jsonable(v, depth + 1) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)[:300]


class Ctx:
    """What a job uses to record its work."""

    def __init__(self, name, timeout):
        self.job = name
        self.timeout = timeout
        self.stats = collections.Counter()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.only = None

    def count(self, key, n=1):
        self.stats[key] += n

    def state(self, *parts):
        """Record a state or observed outcome; distinct ones are counted."""
        h = hashlib.blake2b(digest_size=10)
        for p in parts:
            if isinstance(p, np.ndarray):
                h.update(repr(p.shape).encode())
                q = np.asarray(p)
                if q.dtype.kind == "f":
                    q = np.where(np.isfinite(q), q, 0.0)
                    with np.errstate(all="ignore"):
                        q = np.round(q, 7) + 0.0
                h.update(np.ascontiguousarray(q).tobytes())
            else:
                h.update(repr(p).encode())
            h.update(b"|")
        self.outcomes.add(h.digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(_jsonable(obj))

    @contextlib.contextmanager
    def case(self, desc, timeout=None):
        """One evaluation: anything raised inside, and not finishing, is a violation."""
        self.count("evaluations")
        full = len(self.violations) >= MAX_REPORTED
        t = int(timeout or self.timeout)
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(t)
        try:
            yield
        except CaseTimeout:
            self._fail(desc, "did not finish within {} s".format(t), "", full)
            self.count("timeouts")
            if self.stats["timeouts"] >= 2:
                raise EnoughViolations()
        except Violation as e:
            self._fail(desc, str(e), "", full)
        except AssertionError as e:
            self._fail(desc, "oracle: {}".format(e), _tb(), full)
        except Exception as e:
            self._fail(desc, "{}: {}".format(type(e).__name__, str(e)[:300]), _tb(), full)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            CTL.policy = None

    def _fail(self, desc, msg, tb, full):
        self.count("failed")
        if not full:
            self.violations.append({"job": self.job, "case": _jsonable(desc), "message": msg, "traceback": tb})
        if self.stats["failed"] > 200:
            raise EnoughViolations()


class EnoughViolations(BaseException):
    pass


def _tb():
    return "".join(traceback.format_exc().splitlines(True)[-14:])


def _on_alarm(sig, frame):
    raise CaseTimeout()


class Job:
    def __init__(self, name, fn, *args, **kw):
        self.name, self.fn, self.args, self.kw = name, fn, args, kw
        self.timeout = kw.pop("timeout", 60)


def fail(cond, msg, *args):
    """Oracle: cond is the failure condition."""
    if cond:
        raise Violation(msg.format(*[_short(a) for a in args]))


def _short(a):
    if isinstance(a, np.ndarray):
        return np.array2string(a, precision=6, threshold=30).replace("\n", "")
    s = repr(a)
    return s if len(s) < 200 else s[:200] + "..."


def close(a, b, rtol=1e-9, atol=None, what=""):
    """Oracle: a equals b up to rtol times the scale of b."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    fail(a.shape != b.shape, "{}: shape {} instead of {}", what, a.shape, b.shape)
    if a.size == 0:
        return
    fin = np.isfinite(b)
    fail(not np.array_equal(fin, np.isfinite(a)), "{}: {} instead of {}", what, a, b)
    scale = float(np.max(np.abs(b[fin]))) if np.any(fin) else 0.0
    tol = rtol * scale + (atol if atol is not None else rtol)
    bad = np.max(np.abs(np.where(fin, a, 0) - np.where(fin, b, 0)))
    fail(not bad <= tol, "{}: {} instead of {} (difference {:.3g}, tolerance {:.3g})".replace(
        "{:.3g}", "{}"), what, a, b, float(bad), float(tol))


def same(a, b, what=""):
    """Oracle: exactly equal arrays (NaN equal to NaN)."""
    a, b = np.asarray(a), np.asarray(b)
    fail(a.shape != b.shape, "{}: shape {} instead of {}", what, a.shape, b.shape)
    ok = np.array_equal(a, b) or (a.dtype.kind == "f" and b.dtype.kind == "f" and np.array_equal(a, b, equal_nan=True))
    fail(not ok, "{}: {} instead of {}", what, a, b)


def raises(fn, what, types=Exception):
    try:
        r = fn()
    except types as e:
        return e
    except Exception as e:
        raise Violation("{}: raised {!r} instead of {}".format(what, e, types))
    raise Violation("{}: accepted, returned {}".format(what, _short(r)))


# ------------------------------------------------------------------------------------------------------------ runner
_JOBS = []


def _work(i):
    job = _JOBS[i]
    ctx = Ctx(job.name, job.timeout)
    t = time.time()
    try:
        job.fn(ctx, *job.args, **job.kw)
    except EnoughViolations:
        pass
    except Divergence as e:
        ctx.violations.append({"job": job.name, "case": "exploration",
                               "message": "execution not determined by the scripted answers: {}".format(e),
                               "traceback": ""})
    except Exception as e:
        ctx.violations.append({"job": job.name, "case": "between cases",
                               "message": "{}: {}".format(type(e).__name__, e), "traceback": _tb()})
    finally:
        signal.alarm(0)
        CTL.policy = None
    ctx.stats.pop("timeouts", None)
    return i, dict(ctx.stats), ctx.outcomes, ctx.samples, ctx.violations, time.time() - t


def _child(i, conn):
    null = os.open(os.devnull, os.O_WRONLY)      # the code under test prints, and so does LAPACK
    if not os.environ.get("VERIF_SHOW"):
        os.dup2(null, 1)
        os.dup2(null, 2)
    try:
        conn.send(_work(i))
    finally:
        conn.close()
        os._exit(0)


def run_jobs(jobs, workers, deadline):
    """Runs every job in a forked process of its own (fresh module state for each); yields results."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    global _JOBS
    _JOBS = jobs
    ctx = mp.get_context("fork")
    todo = collections.deque(range(len(jobs)))
    running = {}
    while todo or running:
        while todo and len(running) < workers and time.time() < deadline:
            i = todo.popleft()
            a, b = ctx.Pipe(duplex=False)
            sys.stdout.flush()
            p = ctx.Process(target=_child, args=(i, b))
            p.start()
            b.close()
            running[a] = (p, i)
        if not running:
            break
        for conn in wait(list(running), timeout=1.0):
            p, i = running.pop(conn)
            try:
                yield conn.recv()
            except EOFError:
                p.join()
                yield (i, {"evaluations": 1}, set(), [],
                       [{"job": jobs[i].name, "case": "process", "traceback": "",
                         "message": "the process running the code ended with exit code {}".format(p.exitcode)}], 0.0)
            p.join()
            conn.close()
        if time.time() > deadline + 30:
            for conn, (p, i) in running.items():
                p.kill()
                yield (i, {"unfinished_jobs": 1}, set(), [], [], 0.0)
            break
    for i in todo:
        yield (i, {"unfinished_jobs": 1}, set(), [], [], 0.0)


def known_findings(prop):
    """Lines 'KNOWN property=<id> key=<key> <text>' of KNOWN_FINDINGS; 'fixed:' lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN property={} ".format(prop)):
                _, _, key, text = line.rstrip("\n").split(" ", 3)
                out[key[4:]] = text
    return out


def main(prop, mod, argv):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "36000"))
    replay = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1]))
    only = argv[argv.index("--job") + 1] if "--job" in argv else None
    scratch = tempfile.mkdtemp(prefix="mc_{}_".format(prop))
    os.chdir(scratch)
    warnings.simplefilter("ignore")
    rc = 1
    try:
        rc = _main(prop, mod, tier, seed, workers, t0 + budget, replay, only, t0, scratch)
    except BaseException as e:  # a check ends with 0 or 1 and says why
        traceback.print_exc()
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "job": None, "message": repr(e), "traceback": traceback.format_exc()}, f)
        print("VIOLATION property={} replay={}".format(prop, path))
        rc = 1
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _main(prop, mod, tier, seed, workers, deadline, replay, only, t0, scratch):
    import importlib
    check = importlib.import_module(mod)
    jobs = check.jobs(tier)
    names = [j.name for j in jobs]
    assert len(set(names)) == len(names), "job names must differ"
    if replay and replay.get("job"):
        jobs = [j for j in jobs if j.name == replay["job"]]
    if only:
        jobs = [j for j in jobs if only in j.name]
    stats = collections.Counter()
    outcomes, samples, violations, per_job = set(), [], [], {}
    results = sorted(run_jobs(jobs, workers, deadline), key=lambda r: r[0])
    for i, st, oc, sm, vi, dt in results:
        stats.update(st)
        outcomes |= oc
        samples.append({"job": jobs[i].name, "cases": sm}) if sm else None
        violations += vi
        per_job[jobs[i].name] = {"evaluations": st.get("evaluations", 0), "wall_s": round(dt, 2)}
    known = known_findings(prop)
    seen_known, fresh = {}, []
    for v in violations:
        case = v["case"] if isinstance(v["case"], str) else json.dumps(v["case"], sort_keys=True)
        name = (v["job"] + "/" + case).replace(" ", "_")
        key = name if name in known else None
        if key:
            seen_known[key] = v
        else:
            fresh.append(v)
    for key in seen_known:
        print("KNOWN-FINDING: property={} {}".format(prop, known[key]))
    ev = evidence(prop, check, tier, seed, stats, outcomes, samples, per_job, len(fresh), time.time() - t0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not (replay or only):
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("{}: {} tier, {} jobs, {} evaluations, {} distinct outcomes, {} violations, {:.1f} s".format(
        prop, tier, len(jobs), stats["evaluations"], len(outcomes), len(fresh), time.time() - t0))
    if stats.get("unfinished_jobs"):
        print("{}: {} jobs not run within the time limit".format(prop, stats["unfinished_jobs"]))
    if not fresh:
        return 0
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    for n, v in enumerate(fresh[:MAX_REPORTED]):
        path = os.path.join(d, "{}-{}.json".format(prop, n))
        v = dict(v, property=prop, tier=tier,
                 replay_cmd="/verif/check {} --{} --replay {}".format(prop, tier, path))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=str)
        print("  {} {}: {}".format(v["job"], json.dumps(v["case"])[:300], v["message"][:400]))
        print("VIOLATION property={} replay={}".format(prop, path))
    return 1


def evidence(prop, check, tier, seed, stats, outcomes, samples, per_job, nviol, wall):
    level = check.LEVEL
    cov = {"samples": samples[:12] or [{"note": "no sample recorded"}], "jobs": len(per_job)}
    ev = stats.get("evaluations", 0)
    if level == "model_checking":
        cov["states"] = len(outcomes)
        cov["transitions"] = stats.get("transitions", 0) or stats.get("choices", 0) or ev
        cov["traces_validated_against_impl"] = ev
        cov["rule"] = check.RULE
    else:
        cov["evaluations"] = ev
        cov["distinct_nontrivial"] = len(outcomes)
        cov["rule"] = check.RULE
    for k in ("executions", "choices", "capped", "unfinished_jobs", "faults", "no_design", "spiky", "skipped"):
        if stats.get(k):
            cov[k] = int(stats[k])
    cov["exhaustive"] = not stats.get("capped") and not stats.get("unfinished_jobs")
    cov["per_job"] = per_job
    return {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": list(getattr(check, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": nviol}
