"""Generated-input search: suites of sub-checks, each = generator + oracle.

A sub-check is a function ``fn(case, ctx)`` over JSON-able cases.  Cases come from a
Hypothesis strategy (random, shrinking) or from an iterator (bounded exhaustive
enumeration).  ``fn`` raises ``Violation`` (through ``ctx.require``) when the code under
test breaks the property; any other exception escaping ``fn`` means that the code under
test did not give a usable answer on an input of its documented domain, and counts as a
violation too, except for exceptions that can only come from the machine (memory, disk).
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import zlib

import numpy as np

CASE_CPU_SECONDS = float(os.environ.get("VERIF_CASE_CPU", "100"))
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK_SECONDS", "25"))


def same(a, b, rtol=1e-9):
    """Equal up to the rounding that reordered arithmetic or memory alignment may cause."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=rtol * 1e-2 * max(1e-30, float(np.nanmax(np.abs(b), initial=0))) if np.isfinite(b).any() else 0, equal_nan=True))


class Violation(Exception):
    pass


class Hang(BaseException):
    """The case used CASE_CPU_SECONDS of CPU time without coming back."""


class StopShrink(BaseException):
    pass


class Reject(Exception):
    """The case lies outside the property's domain (counted, not evaluated)."""


class Ctx:
    def __init__(self):
        self.is_nontrivial = False
        self.labels = []

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, name, on=True):
        if on:
            self.labels.append(str(name))

    def require(self, cond, msg="", *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def close(self, got, want, msg, rtol=1e-7, atol=1e-9):
        got_a, want_a = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if got_a.shape != want_a.shape:
            raise Violation(f"{msg}: shape {got_a.shape}, expected {want_a.shape}")
        if not np.allclose(got_a, want_a, rtol=rtol, atol=atol, equal_nan=True):
            d = np.nanmax(np.abs(got_a - want_a)) if got_a.size else 0.0
            raise Violation(f"{msg}: got {short(got_a)}, expected {short(want_a)} (max diff {d:.3g})")

    def raises(self, exc, fn, msg):
        """fn() must raise one of exc."""
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation(f"{msg}: raised {type(e).__name__}: {e} instead of "
                            f"{exc.__name__ if isinstance(exc, type) else [x.__name__ for x in exc]}")
        raise Violation(f"{msg}: was accepted and returned {short(r)}")


def short(x, n=300):
    s = repr(x).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


class Sub:
    def __init__(self, name, fn, strategy=None, cases=None, quick=100, thorough=1000, shards=1,
                 thorough_shards=None, examples=(), weight=None):
        self.name, self.fn, self.strategy, self.cases = name, fn, strategy, cases
        self.n = {"quick": quick, "thorough": thorough}
        self.shards = {"quick": shards, "thorough": thorough_shards or max(shards, 4)}
        self.examples = list(examples)


class Suite:
    def __init__(self, property_id, rule, assumptions=()):
        self.property, self.rule, self.assumptions = property_id, rule, list(assumptions)
        self.subs = []

    def sub(self, name, **kw):
        def deco(fn):
            self.subs.append(Sub(name, fn, **kw))
            return fn
        return deco

    def get(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise KeyError(name)


def normalise(case):
    return json.loads(json.dumps(case))


def _alarm(signum, frame):
    raise Hang()


def run_case(sub, case):
    """Run one case. Returns (ctx, error message or None)."""
    ctx = Ctx()
    np.random.seed(0)
    random.seed(0)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        sub.fn(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, str(e) or "property violated"
    except Reject:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except OSError as e:
        if e.errno in (12, 24, 28):
            raise
        return ctx, _describe(e)
    except Exception as e:
        if type(e).__module__.startswith("hypothesis") and type(e).__name__ in ("UnsatisfiedAssumption", "StopTest"):
            raise
        return ctx, _describe(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:])
    return f"unexpected {type(e).__name__}: {short(str(e))} at {where}"


class Result:
    def __init__(self):
        self.evaluations = 0
        self.rejected = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.failure = None  # (message, case)
        self.exhaustive = False

    def note(self, case, ctx):
        self.evaluations += 1
        for l in ctx.labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.is_nontrivial:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 3 and len(json.dumps(case)) < 1500:
                    self.samples.append(case)

    def fail(self, msg, case):
        if self.failure is None or len(json.dumps(case)) <= len(json.dumps(self.failure[1])):
            self.failure = (msg, case)


def run_sub(suite, sub, tier, shard, seed):
    """Run one shard of one sub-check in this process; returns a Result."""
    res = Result()

    def one(case):
        try:
            ctx, err = run_case(sub, case)
        except Reject:
            res.rejected += 1
            return None
        except Hang:
            res.evaluations += 1
            res.failure = (f"did not finish within {CASE_CPU_SECONDS:.0f} s of CPU time", case)
            raise StopShrink()
        res.note(case, ctx)
        return err

    shards = sub.shards[tier]
    try:
        if shard == 0:
            for case in sub.examples:
                case = normalise(case)
                err = one(case)
                if err:
                    res.fail(err, case)
                    return res
        if sub.cases is not None:
            for k, case in enumerate(sub.cases(tier)):
                if k % shards != shard:
                    continue
                case = normalise(case)
                err = one(case)
                if err:
                    res.fail(err, case)
                    return res
            res.exhaustive = True
            return res
        _run_hypothesis(suite, sub, tier, shard, seed, res, one)
    except StopShrink:
        pass
    return res


def _run_hypothesis(suite, sub, tier, shard, seed, res, one):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    shards = sub.shards[tier]
    n = -(-sub.n[tier] // shards)
    s = zlib.crc32(f"{seed}:{suite.property}:{sub.name}:{shard}".encode())
    first = [None]

    class _Fail(Exception):
        pass

    def inner(case):
        case = normalise(case)
        if first[0] is not None and time.monotonic() - first[0] > SHRINK_SECONDS:
            raise StopShrink()
        err = one(case)
        if err:
            if first[0] is None:
                first[0] = time.monotonic()
            res.fail(err, case)
            raise _Fail(err)

    test = given(sub.strategy)(inner)
    test = hypothesis.seed(s)(test)
    test = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                    phases=[Phase.generate, Phase.shrink], print_blob=False,
                    suppress_health_check=list(HealthCheck))(test)
    try:
        test()
    except StopShrink:
        raise
    except Exception:
        if res.failure is None:
            raise
