"""C17: splitting and mapping a spool covers every patch exactly once, in order."""
from __future__ import annotations

import contextlib
import functools
import io
import itertools
import pickle
import tempfile
import threading
import warnings
from pathlib import Path

import numpy as np

from mc.core import SCRATCH, Mismatch, Skip, expect
from mc.ref import T0

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of spool kinds x lengths x split sizes/counts x clients, with every task execution order and every interleaving of the mapped calls explored on the real code under a controlled scheduler, against the serial list model"
ASSUMPTIONS = ["a client's map returns its results in the order of its inputs (the Executor.map contract)", "nothing is assumed about how the parts of a split by count which does not divide the length are distributed, only that they are consecutive, non-empty, no larger than the ceiling, and as many as requested"]
BOUNDS = {
    "quick": "6 spool kinds x lengths 0..7 x sizes 1..9 and counts 1..9; map: 7 client kinds, all task orders up to 5 tasks, all call interleavings of up to 3 tasks / 6 calls",
    "thorough": "lengths 0..12, sizes/counts 1..14; all task orders up to 6 tasks, all call interleavings of up to 4 tasks / 8 calls",
}
SEC = np.timedelta64(1, "s").astype("m8[ns]")
KINDS = ("memory", "sliced", "chunked", "selected", "sorted", "directory", "file")


def patch(i, n=3):
    import dascore as dc

    t = T0 + (np.arange(n) + i * n) * SEC
    return dc.Patch(data=np.arange(n * 2, dtype=float).reshape(2, n) + 100 * i, coords=dict(time=t, distance=np.arange(2.0)), dims=("distance", "time"), attrs=dict(tag="a"))


def ident(p):
    """Which patch of the list this is."""
    t = np.asarray(p.get_array("time"))
    k = (t[0] - T0) / SEC
    return int(k) // 3, len(t), float(np.asarray(p.data).sum())


def make(kind, n, tmp):
    import dascore as dc

    ps = [patch(i) for i in range(n)]
    if kind == "memory":
        return dc.spool(ps), ps
    if kind == "sliced":
        return dc.spool([patch(90), *ps, patch(91)])[1:n + 1], ps
    if kind == "chunked":
        if not n:
            raise Skip
        whole = dc.spool(ps).chunk(time=None)[0]
        return dc.spool([whole]).chunk(time=3), ps
    if kind == "selected":
        s = dc.spool([*ps, patch(95)])
        return s.select(time=(None, T0 + (n * 3 - 1) * SEC if n else T0 - 5 * SEC)), ps
    if kind == "sorted":
        if not n:
            raise Skip
        return dc.spool(ps[::-1]).sort("time"), ps
    if kind == "directory":
        d = Path(tmp) / f"d{n}"
        d.mkdir()
        for i, p in enumerate(ps):
            p.io.write(d / f"f{i:03d}.h5", "dasdae")
        return dc.spool(d).update(progress=None).sort("time") if n else dc.spool(d).update(progress=None), ps
    if kind == "file":
        if not n:
            raise Skip
        f = Path(tmp) / f"file{n}.h5"
        dc.write(dc.spool(ps), f, "dasdae")
        return dc.spool(f).sort("time"), ps


def shards(tier):
    N = 7 if tier == "quick" else 12
    out = []
    for kind in KINDS:
        for n in range(N + 1):
            out.append(dict(kind=kind, n=n, job="split"))
            if kind in ("memory", "chunked", "directory") or tier != "quick":
                out.append(dict(kind=kind, n=n, job="map"))
    sizes = [(2, 2), (2, 2, 2), (1, 2, 3), (3, 3), (1, 1, 1)]
    if tier != "quick":
        sizes += [(2, 2, 2, 2), (3, 3, 2), (1, 2, 2, 2), (4, 4)]
    for s in sizes:
        for kind in ("memory", "chunked", "directory"):
            out.append(dict(job="inter", sizes=s, kind=kind))
    return out


def run(shard, ctx):
    # the progress bars are not of interest
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), tempfile.TemporaryDirectory(dir=SCRATCH) as tmp:
        warnings.simplefilter("ignore")
        if shard["job"] == "split":
            run_split(shard, ctx, tmp)
        elif shard["job"] == "map":
            run_map(shard, ctx, tmp)
        else:
            run_inter(shard, ctx, tmp)


def run_split(shard, ctx, tmp):
    from dascore.exceptions import ParameterError

    n = shard["n"]
    try:
        sp, ps = make(shard["kind"], n, tmp)
    except Skip:
        return
    ids = [ident(p) for p in ps]
    top = 9 if ctx.tier == "quick" else 14
    for how, k in itertools.product(("size", "count"), range(1, top + 1)):
        with ctx.case(dict(kind=shard["kind"], n=n, split=how, k=k)):
            ctx.trans()
            ctx.state((shard["kind"], n, how, k))
            parts = list(sp.split(**{how: k}))
            lens = [len(x) for x in parts]
            got = [[ident(p) for p in x] for x in parts]
            expect([len(g) for g in got] == lens, "part length differs from its contents", lens)
            expect([i for g in got for i in g] == ids, "parts do not cover the spool in order", got, ids)
            expect(all(lens), "empty parts", lens)
            if how == "size":
                want = [k] * (n // k) + ([n % k] if n % k else [])
                expect(lens == want, "sizes", lens, want)
            else:
                expect(len(parts) == min(k, n), "number of parts", lens, k)
                expect(max(lens, default=0) <= -(-n // k), "evenly sized parts", lens, k)
            for x, g in zip(parts, got):
                expect([ident(x[i]) for i in range(-len(x), len(x))] == g + g, "indexing a part")
                expect(len(x.get_contents()) == len(g), "contents of a part")
            expect([ident(p) for p in sp] == ids, "split changed the spool")
            ctx.trace()
            ctx.outcome(how)
    for kw in (dict(), dict(size=2, count=2), dict(size=0), dict(count=0), dict(size=-1), dict(count=-2)):
        with ctx.case(dict(kind=shard["kind"], n=n, bad=kw)):
            ctx.trans()
            try:
                # bounded: a size of zero must not go on for ever
                got = list(itertools.islice(sp.split(**kw), 2 * n + 5))
            except (ParameterError, ValueError, TypeError):
                ctx.outcome("bad split raises")
                continue
            expect(not n and not got and len(kw) == 1, "bad split parameters accepted", kw, got)


# ---------------------------------------------------------------- map
class Serial:
    def map(self, f, items):
        return [f(x) for x in items]


class Lazy:
    def map(self, f, items):
        return (f(x) for x in items)


class Pickled:
    """As a process pool would: func and spools are pickled, the results too."""

    def map(self, f, items):
        return [pickle.loads(pickle.dumps(pickle.loads(b)(pickle.loads(s)))) for b, s in [(pickle.dumps(f), pickle.dumps(x)) for x in items]]


class Permuted:
    """Run the tasks in a given completion order, return them in input order."""

    def __init__(self, order):
        self.order = order

    def map(self, f, items):
        items = list(items)
        out = [None] * len(items)
        for i in self.order:
            if i < len(items):
                out[i] = f(items[i])
        return out


def sum_of(p, mult=1.0, kind="t"):
    return (*ident(p), mult, kind)


class CallMe:
    """A callable without a __name__."""

    def __call__(self, p, mult=1.0, kind="t"):
        return (*ident(p), mult, kind)


def run_map(shard, ctx, tmp):
    n = shard["n"]
    try:
        sp, ps = make(shard["kind"], n, tmp)
    except Skip:
        return
    base = [ident(p) for p in ps]
    kinds = dict(serial=Serial(), lazy=Lazy(), pickled=Pickled())
    funcs = dict(plain=(sum_of, {}), kwargs=(sum_of, dict(mult=2.0, kind="k")), partial=(functools.partial(sum_of, mult=3.0), {}), callable=(CallMe(), {}))
    wants = dict(plain=(1.0, "t"), kwargs=(2.0, "k"), partial=(3.0, "t"), callable=(1.0, "t"))
    for fname, (func, kw) in funcs.items():
        want = [(*b, *wants[fname]) for b in base]
        for progress in (True, False):
            with ctx.case(dict(kind=shard["kind"], n=n, func=fname, client=None, progress=progress)):
                ctx.trans()
                got = list(sp.map(func, progress=progress, **kw))
                expect(got == want, "map", got, want)
        for cname, client in kinds.items():
            for size in (None, *range(1, n + 2)):
                with ctx.case(dict(kind=shard["kind"], n=n, func=fname, client=cname, size=size)):
                    ctx.trans()
                    ctx.state((shard["kind"], n, fname, cname, size))
                    got = list(sp.map(func, client=client, size=size, progress=bool(size and size % 2), **kw))
                    expect(got == want, "map with client", got, want)
                    ctx.trace()
                    ctx.outcome(cname)
    # None results and a raising function
    with ctx.case(dict(kind=shard["kind"], n=n, func="none")):
        ctx.trans()
        for client in (None, Serial()):
            got = list(sp.map(lambda p: None, client=client, progress=False))
            expect(got == [None] * n, "None results", got)
            got = list(sp.map(lambda p: [ident(p)], client=client, progress=False))
            expect(got == [[b] for b in base], "list results", got)
    for client, bad in itertools.product((None, "s"), range(n)):
        with ctx.case(dict(kind=shard["kind"], n=n, client=client, raises=bad)):
            ctx.trans()

            def boom(p):
                if ident(p)[0] == bad:
                    raise ZeroDivisionError("planned")
                return 1

            try:
                got = list(sp.map(boom, client=Serial() if client else None, progress=False))
            except ZeroDivisionError:
                ctx.outcome("raised")
                continue
            raise Mismatch(f"the error of patch {bad} was swallowed: {got}")
    # every order in which the tasks can complete
    top = 5 if ctx.tier == "quick" else 6
    for size in range(1, n + 1):
        tasks = -(-n // size)
        if tasks < 2 or tasks > top or (shard["kind"] == "directory" and tasks > 4):
            continue
        want = [(*b, 1.0, "t") for b in base]
        for order in itertools.permutations(range(tasks)):
            with ctx.case(dict(kind=shard["kind"], n=n, size=size, order=order)):
                ctx.trans()
                ctx.state((shard["kind"], n, size, order))
                got = list(sp.map(sum_of, client=Permuted(order), size=size, progress=order[0] == 0))
                expect(got == want, "map with permuted completion", order, got, want)
                ctx.trace()
                ctx.outcome("schedule")
    with ctx.case(dict(kind=shard["kind"], n=n, after=True)):
        expect([ident(p) for p in sp] == base, "map changed the spool")


# ---------------------------------------------------------------- interleavings of the calls
class Turns:
    """Threads may only pass their k-th call when the schedule says it is their turn."""

    def __init__(self, schedule):
        self.schedule = list(schedule)
        self.pos = 0
        self.cond = threading.Condition()
        self.local = threading.local()

    def gate(self):
        me = self.local.task
        with self.cond:
            ok = self.cond.wait_for(lambda: self.pos < len(self.schedule) and self.schedule[self.pos] == me, timeout=20)
            if not ok:
                raise Mismatch(f"task {me}: number of calls differs from the number of patches ({self.pos} of {self.schedule})")
            self.pos += 1
            self.cond.notify_all()

    def map(self, f, items):
        items = list(items)
        out = [None] * len(items)
        errs = []

        def go(i):
            self.local.task = i
            try:
                out[i] = f(items[i])
            except BaseException as exc:  # noqa
                errs.append(exc)

        ths = [threading.Thread(target=go, args=(i,)) for i in range(len(items))]
        [t.start() for t in ths]
        [t.join() for t in ths]
        if errs:
            raise errs[0]
        return out


def run_inter(shard, ctx, tmp):
    sizes = shard["sizes"]
    # map uses one size for all: emulate uneven tasks with a trailing short part
    sizes = sorted(sizes, reverse=True)
    size, n = sizes[0], sum(sizes)
    tasks = [size] * (n // size) + ([n % size] if n % size else [])
    sp, ps = make(shard["kind"], n, tmp)
    want = [(*ident(p), 1.0, "t") for p in ps]
    multiset = [i for i, k in enumerate(tasks) for _ in range(k)]
    for sched in sorted(set(itertools.permutations(multiset))):
        with ctx.case(dict(kind=shard["kind"], n=n, size=size, schedule=sched)):
            ctx.trans(len(sched))
            ctx.state((shard["kind"], n, size, sched))
            turns = Turns(sched)

            def func(p):
                turns.gate()
                return (*ident(p), 1.0, "t")

            got = list(sp.map(func, client=turns, size=size, progress=False))
            expect(got == want, "map under schedule", sched, got, want)
            expect(turns.pos == len(sched), "calls", turns.pos)
            ctx.trace()
            ctx.outcome("interleaving")
