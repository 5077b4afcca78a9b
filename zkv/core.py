"""Cases, verdicts, deterministic randomness and the exploration loop.

A case is a JSON value. ``Sub.run(case)`` executes it against the library and raises ``Violation``
when the property fails; it returns a set of labels (``nontrivial`` among them when the case is
non-trivial by the property's rule). Cases are drawn by Hypothesis, shrunk by Hypothesis, and stored
as replay files, which re-execute without Hypothesis.
"""
import contextlib
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

import petlib.bn as _bn


class Violation(Exception):
    """The property does not hold for the case."""


class Inconclusive(BaseException):
    """A case ran out of time: no statement about the property."""


class Sub:
    """One generated check of a property."""

    def __init__(self, name, strategy, run, quick, thorough=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule


class Prop:
    def __init__(self, pid, subs, rule, assumptions=()):
        self.id = pid
        self.subs = subs
        self.rule = rule
        self.assumptions = list(assumptions)


# ---------------------------------------------------------------- deterministic randomness
_orig_random = _bn.Bn.random
_orig_urandom = os.urandom
_rng = None


def _det_random(self):
    n = int(self)
    if n <= 0:
        return _orig_random(self)
    v = _rng.randrange(n)
    return _bn.Bn.from_binary(v.to_bytes((v.bit_length() + 7) // 8 or 1, "big"))


def _det_urandom(n):
    return _rng.randbytes(n)


@contextlib.contextmanager
def randomness(seed):
    """All randomness the library can draw on comes from one seeded stream inside the block."""
    global _rng
    saved = (_rng, _bn.Bn.random, os.urandom, random._urandom, random.getstate())
    _rng = random.Random(seed)
    _bn.Bn.random, os.urandom, random._urandom = _det_random, _det_urandom, _det_urandom
    random.seed(seed)
    try:
        yield _rng
    finally:
        _rng, _bn.Bn.random, os.urandom, random._urandom = saved[:4]
        random.setstate(saved[4])


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_seed(case):
    return int.from_bytes(hashlib.sha256(canon(case).encode()).digest()[:8], "big")


def rng():
    """The stream of the running case, for choices made by the harness."""
    return _rng


# ---------------------------------------------------------------- verdict helpers
def where(exc):
    frames = traceback.extract_tb(exc.__traceback__)
    last = [f for f in frames if "/zksk/" in f.filename] or frames
    f = last[-1]
    return "%s: %s (%s:%d)" % (
        type(exc).__name__, str(exc)[:200], os.path.basename(f.filename), f.lineno)


def must(what, fn, *args, **kwargs):
    """A call that the property requires to succeed."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s raised %s" % (what, where(e)))


def require(cond, what, *args):
    if not cond:
        raise Violation(what % args if args else what)


def accepted(fn, *args, **kwargs):
    """Whether a verification accepts. An error counts as a rejection."""
    try:
        return bool(fn(*args, **kwargs))
    except Violation:
        raise
    except Exception:
        return False


def must_accept(what, fn, *args, **kwargs):
    r = must(what, fn, *args, **kwargs)
    require(bool(r), "%s: rejected", what)


def must_reject(what, fn, *args, **kwargs):
    require(not accepted(fn, *args, **kwargs), "%s: accepted", what)


# ---------------------------------------------------------------- one case
CASE_SECONDS = 120


def _on_alarm(*_):
    raise Inconclusive("case exceeded %d s" % CASE_SECONDS)


CURRENT = None  # file naming the running case, for the parent of a worker that dies


def run_case(sub, case):
    """Run a case; a Violation carries the case."""
    if CURRENT:
        with open(CURRENT, "w") as f:
            f.write(sub.name + "\n" + canon(case))
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with randomness(case_seed(case)):
            try:
                return sub.run(case) or set()
            except Violation as v:
                v.case = case
                raise
            except Exception as e:
                v = Violation("unexpected %s" % where(e))
                v.case = case
                v.trace = traceback.format_exc()
                raise v
    finally:
        signal.alarm(0)


def explore(sub, n, seed, stats, deadline):
    """Draw n cases. Returns None or (case, message) of a shrunk failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 45
    failing = []
    stop = []

    def body(case):
        if stop or time.time() > deadline:
            stats["skipped"] = stats.get("skipped", 0) + 1
            return
        key = hashlib.sha256(canon(case).encode()).digest()[:10]
        stats["evaluations"] += 1
        try:
            labels = run_case(sub, case)
        except Violation as v:
            failing.append((case, str(v), getattr(v, "trace", "")))
            raise
        except Inconclusive:
            stats["inconclusive"] = stats.get("inconclusive", 0) + 1
            stop.append(1)
            return
        for l in labels:
            stats["classes"][l] = stats["classes"].get(l, 0) + 1
        if "nontrivial" in labels:
            if key not in stats["keys"]:
                stats["keys"].add(key)
                # the two cases with the most classes, if they can be shown
                size = len(canon(case))
                if size < 3000:
                    stats["samples"].append((len(labels), -size, len(stats["keys"]), {
                        "check": sub.name, "case": case, "classes": sorted(labels)}))
                    stats["samples"].sort(key=lambda x: x[:3], reverse=True)
                    del stats["samples"][2:]

    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False, print_blob=False,
    )(hypothesis.seed(seed)(given(sub.strategy)(body)))
    try:
        test()
    except Violation:
        return failing[-1]
    except BaseException as e:
        if failing:
            # e.g. Flaky: the failure depends on something outside the case; still a real failure
            return min(failing, key=lambda f: len(canon(f[0])))
        raise
    return None
