"""C02: coordinate queries (select / order / next index / sample counts) equal brute force."""
from __future__ import annotations

import itertools

import numpy as np

from mc.checks.c01 import check_coord, vals_eq
from mc.core import expect
from mc.gen import DOMS, is_even, same, strictly, words

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of label arrays x queries (and select-after-order/index chains) on the real coordinates against brute-force filtering"
RULE = "all label words x all bound pairs on a half-grid"
ASSUMPTIONS = [
    "query values lie on the half grid (on a label or half way between two)",
    "relative offsets: non-negative from the smallest label, negative from the largest",
]
BOUNDS = {
    "quick": "words of length 1..3 over 4 positions x 8 dtype domains; every (lo,hi) pair of half-grid bounds, None/.../reversed; every sample range; every value array of <=2 values; chains reorder->select",
    "thorough": "words of length 1..4(5) over 4 positions",
}


AWKWARD = ("fd", "tiny")


def shards(tier):
    out = []
    maxlen = 3 if tier == "quick" else 5
    for d in DOMS:
        for first in range(4):
            out.append(dict(kind="range", dom=d, first=first, maxlen=maxlen))
        out.append(dict(kind="arrays", dom=d, maxlen=min(maxlen, 4)))
        out.append(dict(kind="index", dom=d))
        out.append(dict(kind="chain", dom=d))
    out.append(dict(kind="encodings", dom="dt_s"))
    out.append(dict(kind="encodings", dom="td"))
    return out


def run(shard, ctx):
    globals()["run_" + shard["kind"]](shard, ctx)


def idx_of(ind, n):
    """Resolve any returned indexer to explicit positions."""
    return np.arange(n)[ind]


def in_range(arr, lo, hi, eps):
    keep = np.ones(len(arr), dtype=bool)
    if lo is not None:
        keep &= arr >= (lo - eps)
    if hi is not None:
        keep &= arr <= (hi + eps)
    return np.flatnonzero(keep)


def eps_of(dom):
    if dom.dtype.kind == "f":
        return abs(float(dom.label(1)) - float(dom.label(0))) * 1e-6
    if dom.dtype.kind in "mM":
        return np.timedelta64(0, "ns")
    return 0


def check_sel(coord, arr, dom, res, want, what):
    new, ind = res
    got = idx_of(ind, len(arr))
    expect(list(got) == list(want), f"{what}: selected positions", list(got), "expected", list(want), "labels", list(arr))
    check_coord(new, arr[want], dom, full=False, what=f"{what}: ")


def bounds(dom):
    for h in range(-2, 9):
        g = h / 2
        if dom.dtype.kind == "i" or dom.name == "dt_ns":
            yield g, dom.label(g)
        else:
            yield g, dom.label(g)


def run_range(shard, ctx):
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    eps = eps_of(dom)
    qs = [None] + [v for _, v in bounds(dom)]
    # offsets which land exactly on a label are only asked where arithmetic is exact
    rel = [None] + [dom.delta(h / 2) for h in range(-7, 8) if h % 2 or dom.name not in AWKWARD]
    for gs in words(4, shard["maxlen"], 1):
        if gs[0] != shard["first"]:
            continue
        arr = dom.arr(gs)
        n = len(arr)
        coord = get_coord(data=arr)
        case = dict(dom=dom.name, word=gs)
        ctx.state((dom.name, gs))
        ctx.sample(case)
        for (i, a), (j, b) in itertools.product(enumerate(qs), enumerate(qs)):
            with ctx.case(dict(case, q=[repr(a), repr(b)])):
                lo, hi = (b, a) if (a is not None and b is not None and b < a) else (a, b)
                want = in_range(arr, lo, hi, eps)
                check_sel(coord, arr, dom, coord.select((a, b)), want, f"select({a!r},{b!r})")
                if i % 3 == 0 and j % 4 == 0:
                    check_sel(coord, arr, dom, coord.select(slice(a, b)), want, "select(slice)")
                    check_sel(coord, arr, dom, coord.select((a if a is not None else ..., b if b is not None else ...)), want, "select(...)")
                ctx.trans()
                ctx.trace()
                ctx.outcome(f"kept:{len(want)}/{n}")
        lo0, hi0 = arr.min(), arr.max()
        for (i, a), (j, b) in itertools.product(enumerate(rel), enumerate(rel)):
            with ctx.case(dict(case, relative=[repr(a), repr(b)])):
                zero = dom.delta(0)
                res = lambda x: None if x is None else (lo0 + x if x >= zero else hi0 + x)
                ra, rb = res(a), res(b)
                if ra is not None and rb is not None and rb < ra:
                    ra, rb = rb, ra
                want = in_range(arr, ra, rb, eps)
                check_sel(coord, arr, dom, coord.select((a, b), relative=True), want, f"relative({a!r},{b!r})")
                ctx.trans()
        ints = [None] + list(range(-n - 1, n + 2))
        for a, b in itertools.product(ints, ints):
            with ctx.case(dict(case, samples=[a, b])):
                want = np.arange(n)[slice(a, b)]
                check_sel(coord, arr, dom, coord.select((a, b), samples=True), want, f"samples({a},{b})")
                ctx.trans()
        for a in range(-n, n):
            with ctx.case(dict(case, sample=a)):
                check_sel(coord, arr, dom, coord.select(a, samples=True), np.arange(n)[[a]], f"sample {a}")


def run_arrays(shard, ctx):
    """select / order with arrays of values, sample numbers or masks."""
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    # values exactly on labels, between them and outside
    pool = [0, 1, 2, 3, 0.5, 7]
    for gs in words(4, shard["maxlen"], 1):
        arr = dom.arr(gs)
        n = len(arr)
        coord = get_coord(data=arr)
        case = dict(dom=dom.name, word=gs)
        ctx.state((dom.name, gs))
        for k in (1, 2, 3):
            for qs in itertools.product(pool[: 6 if k < 3 else 4], repeat=k):
                q = dom.arr(qs)
                with ctx.case(dict(case, values=qs)):
                    want = [i for i in range(n) if gs[i] in qs]
                    # float labels of evenly sampled coords may differ in the last bit
                    exact = dom.dtype.kind != "f" or not coord.evenly_sampled or dom.name == "f"
                    if exact:
                        check_sel(coord, arr, dom, coord.select(q), want, f"select values {qs}")
                        if len(set(qs)) == len(qs):
                            want = [i for v in qs for i in range(n) if gs[i] == v]
                            new, ind = coord.order(q)
                            got = idx_of(ind, n)
                            expect([gs[i] for i in got] == [gs[i] for i in want] and sorted(got) == sorted(want),
                                   "order positions", list(got), "expected", want)
                            check_coord(new, arr[got], dom, full=False, what="order: ")
                    ctx.trans()
                    ctx.trace()
        for k in (1, 2, 3):
            for qs in itertools.product(range(-n - 1, n + 2), repeat=k):
                if k == 3 and n > 2:
                    continue
                q = np.array(qs)
                with ctx.case(dict(case, samples=qs)):
                    if min(qs) >= 0:
                        want = [i for i in range(n) if i in qs]
                        check_sel(coord, arr, dom, coord.select(q, samples=True), want, f"select samples {qs}")
                    want = [i % n for i in qs if -n <= i < n]
                    new, ind = coord.order(q, samples=True)
                    got = list(idx_of(ind, n))
                    expect(got == want, "order(samples) positions", got, want)
                    check_coord(new, arr[want], dom, full=False, what="order(samples): ")
                    ctx.trans()
        for mask in itertools.product((False, True), repeat=n):
            m = np.array(mask)
            with ctx.case(dict(case, mask=mask)):
                check_sel(coord, arr, dom, coord.select(m), np.flatnonzero(m), "mask")
                ctx.trans()


def run_chain(shard, ctx):
    """select on coordinates which were themselves derived (reordered, sliced, sorted)."""
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    eps = eps_of(dom)
    qs = [None] + [v for _, v in bounds(dom)]
    bases = [(0, 1, 2, 3), (3, 2, 1, 0), (0, 1, 3), (3, 1, 0), (1, 3, 0, 2), (0, 2, 2, 1)]
    for gs in bases:
        n0 = len(gs)
        arr0 = dom.arr(gs)
        base = get_coord(data=arr0)
        derived = []
        for k in (2, 3) if ctx.tier == "quick" else (2, 3, 4):
            for p in itertools.permutations(range(n0), k):
                derived.append(("take", p, lambda c, p=p: c[np.array(p)], np.array(p)))
                derived.append(("order", p, lambda c, p=p: c.order(np.array(p), samples=True)[0], np.array(p)))
        for s in (slice(None, None, -1), slice(1, None), slice(None, None, 2), slice(None, None, -2), slice(2, 0, -1)):
            derived.append(("slice", repr(s), lambda c, s=s: c[s], np.arange(n0)[s]))
        derived.append(("sort", 0, lambda c: c.sort()[0], np.argsort(arr0, kind="stable")))
        derived.append(("rsort", 0, lambda c: c.sort(reverse=True)[0], np.argsort(arr0, kind="stable")[::-1]))
        derived.append(("index", 0, lambda c: c.index(np.array([n0 - 1, 0])), np.array([n0 - 1, 0])))
        for name, p, fn, pos in derived:
            case = dict(dom=dom.name, word=gs, op=name, arg=p)
            arr = arr0[pos]
            coord = None
            with ctx.case(case):
                coord = fn(base)
                check_coord(coord, arr, dom, full=False)
            if coord is None or not len(arr):
                continue
            ctx.state((dom.name, gs, name, p))
            sub = [None] + qs[2::2] if dom.name in AWKWARD else qs[::2] + [qs[3]]
            for a, b in itertools.product(sub, repeat=2):
                with ctx.case(dict(case, q=[repr(a), repr(b)])):
                    lo, hi = (b, a) if (a is not None and b is not None and b < a) else (a, b)
                    want = in_range(arr, lo, hi, eps)
                    check_sel(coord, arr, dom, coord.select((a, b)), want, f"{name}{p} then select({a!r},{b!r})")
                    ctx.trans()
                    ctx.trace()


def run_index(shard, ctx):
    """get_next_index and get_sample_count on ascending coordinates."""
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    for gs in words(5, 4, 1):
        if not (len(gs) == 1 or strictly(gs) == "up"):
            continue
        arr = dom.arr(gs)
        n = len(arr)
        coord = get_coord(data=arr)
        case = dict(dom=dom.name, word=gs)
        ctx.state((dom.name, gs))
        pts = [h / 2 for h in range(2 * gs[0], 2 * gs[-1] + 1)]
        if dom.name in AWKWARD:
            pts = [g for g in pts if g % 1] or [gs[0]]
        want_all = []
        for g in pts:
            want = min(i for i in range(n) if gs[i] >= g)
            want_all.append(want)
            with ctx.case(dict(case, next=g)):
                got = coord.get_next_index(dom.label(g))
                expect(int(got) == want, f"get_next_index({dom.label(g)!r})", got, want)
                rel = dom.delta(g - gs[0])
                got = coord.get_next_index(rel, relative=True)
                expect(int(got) == want, f"get_next_index({rel!r}, relative)", got, want)
                ctx.trans()
                ctx.trace()
        with ctx.case(dict(case, next="array")):
            got = coord.get_next_index(dom.arr(pts))
            expect([int(x) for x in got] == want_all, "get_next_index(array)", got, want_all)
        for g in (gs[0] - 0.5, gs[-1] + 0.5, gs[0] - 3, gs[-1] + 3):
            with ctx.case(dict(case, oob=g)):
                try:
                    got = coord.get_next_index(dom.label(g))
                except ValueError:
                    got = "ValueError"
                expect(got == "ValueError", "out of bounds value accepted", got)
        for i in range(-n - 1, n + 1):
            with ctx.case(dict(case, sample=i)):
                try:
                    got = int(coord.get_next_index(i, samples=True))
                except ValueError:
                    got = "ValueError"
                want = i % n if -n <= i < n else "ValueError"
                expect(got == want, f"get_next_index({i}, samples)", got, want)
        if coord.evenly_sampled:
            st = gs[1] - gs[0]
            for h in range(1, 14):
                with ctx.case(dict(case, count=h / 2)):
                    got = coord.get_sample_count(dom.delta(h / 2))
                    want = int(-(-h // (2 * st)))
                    expect(got == want, f"get_sample_count({dom.delta(h/2)!r})", got, want)
                    ctx.trans()
                with ctx.case(dict(case, count=h / 2, lt=True)):
                    from dascore.exceptions import ParameterError
                    want = int(-(-h // (2 * st)))
                    try:
                        got = coord.get_sample_count(dom.delta(h / 2), enforce_lt_coord=True)
                    except ParameterError:
                        got = "ParameterError"
                    expect(got == (want if want <= n else "ParameterError"), "enforce_lt_coord", got, want)


def run_encodings(shard, ctx):
    """the same instant/duration in any accepted spelling selects the same labels."""
    import pandas as pd
    import dascore as dc
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    for gs in [(0, 1, 2, 3), (3, 2, 1, 0), (0, 1, 3), (3, 1, 0), (2, 0, 3, 1), (1, 1, 0, 3)]:
        arr = dom.arr(gs)
        coord = get_coord(data=arr)
        for ha, hb in itertools.product(range(-1, 8), repeat=2):
            if ha > hb:
                continue
            a, b = dom.label(ha / 2), dom.label(hb / 2)
            want = in_range(arr, a, b, np.timedelta64(0, "ns"))
            if dom.kind == "dt":
                enc = {
                    "str": str, "timestamp": pd.Timestamp,
                    "dt64[us]": lambda x: x.astype("datetime64[us]"),
                    "datetime": lambda x: pd.Timestamp(x).to_pydatetime(),
                    "float": lambda x: float(dc.to_float(x)),
                }
            else:
                enc = {
                    "timedelta": pd.Timedelta, "td64[us]": lambda x: x.astype("timedelta64[us]"),
                    "py": lambda x: pd.Timedelta(x).to_pytimedelta(),
                    "float": lambda x: float(dc.to_float(x)),
                }
            for name, f in enc.items():
                with ctx.case(dict(dom=dom.name, word=gs, q=[ha, hb], enc=name)):
                    check_sel(coord, arr, dom, coord.select((f(a), f(b))), want, f"select {name}")
                    ctx.trans()
                    ctx.trace()
            # relative, as seconds / timedelta
            if ha >= 0:
                ra, rb = arr.min() + dom.delta(ha / 2), arr.min() + dom.delta(hb / 2)
                want = in_range(arr, ra, rb, np.timedelta64(0, "ns"))
                for name, f in {"td": lambda x: x, "float": lambda x: float(dc.to_float(x)), "pd": pd.Timedelta}.items():
                    with ctx.case(dict(dom=dom.name, word=gs, rel=[ha, hb], enc=name)):
                        check_sel(coord, arr, dom, coord.select((f(dom.delta(ha / 2)), f(dom.delta(hb / 2))), relative=True), want, f"relative {name}")
                        ctx.trans()
            ctx.state((dom.name, gs, ha, hb))
