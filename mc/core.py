"""Shared machinery: exhaustive exploration of bounded spaces on the real code.

A check module (mc/checks/<id>.py) exposes

    LEVEL, TECHNIQUE, RULE, ASSUMPTIONS, BOUNDS   (documentation, goes in evidence)
    shards(tier)        -> list of JSON-able shard descriptions (a partition of the space)
    run(shard, ctx)     -> enumerate *everything* in that shard, in a fixed order

and reports through the Ctx below.  There is no randomness anywhere.
"""
from __future__ import annotations

import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback

REPO = os.environ.get("VPMC_REPO", "/repo")
SCRATCH = os.environ.get("VPMC_SCRATCH", "/tmp")
CASE_TIMEOUT = 120.0


class CaseTimeout(BaseException):
    """A single case ran far longer than any correct run does."""


class StopShard(BaseException):
    """Enough violations in this shard / deadline reached."""


class Skip(Exception):
    """The call is outside what the property defines in this state."""


class Mismatch(AssertionError):
    """Oracle and implementation disagree."""


def _alarm(signum, frame):
    raise CaseTimeout()


def digest(obj) -> str:
    if not isinstance(obj, bytes | str):
        obj = repr(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf8", "surrogatepass")
    return hashlib.blake2b(obj, digest_size=12).hexdigest()


def jsonable(obj):
    """Make obj JSON friendly (for replay files only)."""
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, list | tuple | set | frozenset):
        return [jsonable(x) for x in obj]
    if isinstance(obj, str | int | float | bool) or obj is None:
        return obj
    return repr(obj)


class Ctx:
    """Per-worker recorder."""

    MAX_VIOL = int(os.environ.get("VPMC_MAXVIOL", "4"))

    def __init__(self, prop, tier, shard, deadline, known=(), only=None):
        self.prop, self.tier, self.shard = prop, tier, shard
        self.deadline = deadline
        self.known = set(known)
        self.only = only
        self.states = set()
        self.transitions = 0
        self.evaluations = 0
        self.traces = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.capped = False
        self.counters = {}

    # -- statistics
    def state(self, key) -> bool:
        """Record a state; True if it was new."""
        d = digest(key)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    # -- cases
    @contextlib.contextmanager
    def case(self, spec, key=None):
        """
        Run one case.  Any exception (other than control flow) is a violation:
        the drivers only issue calls whose behaviour the property defines.
        """
        if time.time() > self.deadline:
            self.capped = True
            raise StopShard()
        self.evaluations += 1
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
        try:
            yield
        except StopShard:
            raise
        except Skip:
            self.count("skipped")
        except CaseTimeout:
            self.fail(spec, f"case did not finish in {CASE_TIMEOUT}s (hang)", key)
        except Mismatch as exc:
            self.fail(spec, str(exc), key)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as exc:
            tb = traceback.format_exc(limit=-6)
            self.fail(spec, f"unexpected {type(exc).__name__}: {exc}\n{tb}", key)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def fail(self, spec, msg, key=None):
        key = key or digest(json.dumps(jsonable(spec), sort_keys=True))
        if key in self.known:
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return
        self.violations.append(
            dict(shard=jsonable(self.shard), case=jsonable(spec), msg=str(msg)[:6000], key=key)
        )
        if len(self.violations) >= self.MAX_VIOL:
            raise StopShard()

    def result(self):
        return dict(
            states=self.states,
            transitions=self.transitions,
            evaluations=self.evaluations,
            traces=self.traces,
            outcomes=self.outcomes,
            samples=self.samples,
            violations=self.violations,
            known_hits=self.known_hits,
            capped=self.capped,
            counters=self.counters,
            shard=jsonable(self.shard),
        )


def expect(cond, msg, *args):
    """Oracle assertion."""
    if not cond:
        raise Mismatch(msg if not args else f"{msg}: " + ", ".join(map(str, args)))


class Choices:
    """
    Stateless exploration: a driver asks `pick(name, options)`; `explore`
    enumerates every sequence of answers (depth first, option order).
    """

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.sizes = []
        self.names = []

    def pick(self, name, options):
        options = list(options)
        i = len(self.taken)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= len(options):
            raise RuntimeError(f"replay divergence at {i} ({name}): {k} >= {len(options)}")
        self.taken.append(k)
        self.sizes.append(len(options))
        self.names.append((name, options[k]))
        return options[k]

    @property
    def labels(self):
        return {n: v for n, v in self.names}


def explore(driver, fixed=()):
    """Yield (choices, result) for each complete choice sequence extending `fixed`."""
    prefix = list(fixed)
    nfix = len(fixed)
    while True:
        ch = Choices(prefix)
        yield ch, driver
        # next sequence
        taken, sizes = ch.taken, ch.sizes
        i = len(taken) - 1
        while i >= nfix and taken[i] + 1 >= sizes[i]:
            i -= 1
        if i < nfix:
            return
        prefix = taken[:i] + [taken[i] + 1]


def worker_init():
    signal.signal(signal.SIGALRM, _alarm)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
