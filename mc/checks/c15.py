"""C15: a spool behaves like the plain list of patches it describes."""
from __future__ import annotations

import itertools
import warnings

import numpy as np

from mc.checks.c14 import runs
from mc.core import Mismatch, Skip, expect
from mc.ref import T0

LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over all spool operation histories to a depth, each state of the real spool compared with a list-of-patches model (every index, iteration, contents table, parents re-checked)"
ASSUMPTIONS = ["range bounds lie on samples or beyond the data (a range between two samples leaves an empty patch, which iteration is documented to skip)", "the order of separate chunk runs is not promised; the model adopts the observed order"]
BOUNDS = {
    "quick": "5 starting spools (contiguous, unordered/overlapping/gapped, two stations, single, empty) x 17 operations to depth 2 and 9 operations to depth 3",
    "thorough": "17 operations to depth 3, 7 operations to depth 4",
}
SEC = np.timedelta64(1, "s").astype("m8[ns]")


def item(start, n, station="", tag="a", chans=(0, 1, 2)):
    return dict(labels=tuple(range(start, start + n)), chans=tuple(chans), station=station, tag=tag)


INITS = {
    "contiguous": [item(0, 5, tag="c1"), item(5, 5, tag="c1"), item(10, 5, tag="c1")],
    "mixed": [item(8, 5), item(0, 4), item(2, 4), item(20, 3)],
    "groups": [item(6, 4, "A", "t2"), item(0, 6, "B", "t1"), item(0, 6, "A", "t1"), item(6, 3, "B", "t2")],
    "single": [item(3, 7)],
    "empty": [],
}


def value(lab, chan, station):
    return lab * 10 + chan + (1000 if station == "B" else 0)


def build(it):
    import dascore as dc

    data = np.array([[value(l, c, it["station"]) for l in it["labels"]] for c in it["chans"]], float)
    return dc.Patch(data=data, coords=dict(time=T0 + np.array(it["labels"]) * SEC, distance=np.array(it["chans"]) * 10.0), dims=("distance", "time"),
                    attrs=dict(station=it["station"], tag=it["tag"]))


def observe(p):
    t = ((np.asarray(p.get_array("time")) - T0) / SEC)
    d = np.asarray(p.get_array("distance")) / 10
    it = dict(labels=tuple(int(x) for x in t), chans=tuple(int(x) for x in d), station=p.attrs.station, tag=p.attrs.tag)
    expect(bool(np.all(t == np.array(it["labels"])) and np.all(d == np.array(it["chans"]))), "labels off the grid", t, d)
    want = np.array([[value(l, c, it["station"]) for l in it["labels"]] for c in it["chans"]], float)
    got = np.asarray(p.transpose("distance", "time").data)
    expect(got.shape == want.shape and bool(np.all(got == want)), "values not at their labels", got.tolist(), it)
    return it


def key(it):
    return (it["station"], it["tag"], it["chans"], it["labels"])


# ------------------------------------------------------------ operations: (name, impl, model)
def op_select_time(a, b):
    def impl(s):
        return s.select(time=(None if a is None else T0 + a * SEC, None if b is None else T0 + b * SEC))

    def model(items):
        out = []
        for it in items:
            lab = tuple(l for l in it["labels"] if (a is None or l >= a) and (b is None or l <= b))
            if lab:
                out.append(dict(it, labels=lab))
        return out

    return (f"select time {a}..{b}", impl, model)


def op_select_dist(a, b):
    def model(items):
        out = []
        for it in items:
            ch = tuple(c for c in it["chans"] if (a is None or c * 10 >= a) and (b is None or c * 10 <= b))
            if ch:
                out.append(dict(it, chans=ch))
        return out

    return (f"select dist {a}..{b}", lambda s: s.select(distance=(a, b)), model)


def op_attr(field, val, pred):
    return (f"select {field}={val}", lambda s: s.select(**{field: val}), lambda items: [i for i in items if pred(i[field])])


def op_slice(*args):
    sl = slice(*args)
    return (f"slice {args}", lambda s: s[sl], lambda items: items[sl])


def op_array(kind):
    def idx(n):
        if kind == "rev":
            return np.arange(n)[::-1]
        if kind == "odd":
            return np.arange(n) % 2 == 1
        if kind == "first_last":
            return np.array([-1, 0]) if n > 1 else np.arange(n)
        if kind == "noone":
            return np.zeros(n, bool)

    def model(items):
        i = idx(len(items))
        return [items[k] for k in (np.flatnonzero(i) if i.dtype == bool else i)]

    return (f"array {kind}", lambda s: s[idx(len(s))], model)


def op_sort(attr):
    def model(items):
        f = (lambda i: i["labels"][0]) if attr == "time" else (lambda i: i[attr])
        ks = [f(i) for i in items]
        if len(set(ks)) != len(ks):
            return ("tied", sorted(items, key=f), f)
        return sorted(items, key=f)

    return (f"sort {attr}", lambda s: s.sort(attr), model)


def op_chunk(L, O=0, partial=False):
    def impl(s):
        kw = dict(time=None if L is None else L)
        if O:
            kw["overlap"] = O
        if partial:
            kw["keep_partial"] = True
        return s.chunk(**kw)

    def model(items):
        groups = {}
        for it in items:
            groups.setdefault((it["station"], it["tag"], it["chans"]), []).extend(it["labels"])
        gs = {}
        for (s, t, c) in groups:
            gs.setdefault((s, t), set()).add(c)
        if any(len(v) > 1 for v in gs.values()):
            raise Skip
        out = []
        for (s, t, c), lab in groups.items():
            for r in runs(lab):
                n = len(r)
                if L is None:
                    out.append(dict(station=s, tag=t, chans=c, labels=tuple(r)))
                    continue
                if n < L and not partial:
                    continue
                k = 0
                while k < n:
                    if k + L <= n or (partial and k < n - 1):
                        out.append(dict(station=s, tag=t, chans=c, labels=tuple(r[k:k + L])))
                    k += L - O
        return ("unordered", out)

    return (f"chunk {L} {O} {partial}", impl, model)


def op_split(k):
    return (f"split part {k}", lambda s: list(s.split(size=2))[k] if len(s) > 2 * k else s, lambda items: items[2 * k: 2 * k + 2] if len(items) > 2 * k else items)


OPS = [
    op_select_time(3, 8), op_select_time(None, 6), op_select_time(100, 120), op_select_dist(10, None), op_attr("tag", "t*", lambda x: x.startswith("t")),
    op_attr("station", ["A", ""], lambda x: x in ("A", "")), op_slice(1, None), op_slice(0, 2), op_slice(None, None, -1), op_slice(-2, None), op_array("rev"), op_array("odd"), op_array("first_last"), op_sort("time"),
    op_chunk(3), op_chunk(None), op_chunk(4, 1, True), op_split(1), ("update", lambda s: s.update(), lambda i: i),
]
CORE = [0, 3, 6, 11, 10, 13, 14, 15, 16]
DEEP = [0, 6, 10, 13, 14, 15, 16]


def shards(tier):
    out = []
    for init in INITS:
        for first in range(len(OPS)):
            out.append(dict(init=init, first=first, depth=2, alpha="all"))
        for first in CORE:
            for second in CORE:
                if init != "empty":
                    out.append(dict(init=init, first=first, second=second, depth=3, alpha="core"))
        if tier != "quick" and init != "empty":
            for first, second in itertools.product(range(len(OPS)), repeat=2):
                out.append(dict(init=init, first=first, second=second, depth=3, alpha="all"))
            for first, second in itertools.product(DEEP, DEEP):
                out.append(dict(init=init, first=first, second=second, depth=4, alpha="deep"))
    return out


def run(shard, ctx):
    import dascore as dc

    items = INITS[shard["init"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sp = dc.spool([build(i) for i in items])
        alpha = dict(all=list(range(len(OPS))), core=CORE, deep=DEEP)[shard["alpha"]]
        explore(ctx, shard, sp, list(items), (), alpha)


def explore(ctx, shard, sp, items, hist, alpha):
    depth = len(hist)
    if depth >= shard["depth"]:
        return
    todo = [shard["first"]] if depth == 0 else [shard["second"]] if depth == 1 and "second" in shard else alpha
    full = depth + 1 >= (3 if "second" in shard else 1) or shard["init"] == "empty"
    for k in todo:
        name, impl, model = OPS[k]
        h = (*hist, name)
        spec = dict(init=shard["init"], history=h)
        new = want = None
        ok = False
        with ctx.case(spec):
            ctx.trans()
            ctx.state((shard["init"], h))
            new, want = step(sp, items, impl, model)
            if full:
                want = check_spool(new, want)
                check_spool(sp, items, light=True)
            else:
                want = adopt(new, want)
            ctx.trace()
            ctx.outcome(name.split()[0])
            ok = True
        if ok and new is not None:
            explore(ctx, shard, new, want, h, alpha)


def step(sp, items, impl, model):
    from dascore.exceptions import ChunkError

    want = model(items)
    body = want[1] if isinstance(want, tuple) else want
    try:
        new = impl(sp)
    except ChunkError:
        expect(not body, "ChunkError although chunks exist", body)
        raise Skip
    except Exception:
        if not items:  # nothing is promised about chunking or sorting nothing
            raise Skip
        raise
    return new, want


def adopt(sp, want, got=None):
    """Fix the order the model leaves open."""
    if not isinstance(want, tuple):
        return want
    got = [observe(p) for p in sp] if got is None else got
    body = want[1]
    expect(sorted(map(key, got)) == sorted(map(key, body)), "patches", got, body)
    if want[0] == "tied":
        ks = [want[2](g) for g in got]
        expect(ks == sorted(ks), "not sorted", ks)
    return got


def check_spool(sp, want, light=False, memory=True):
    want = adopt(sp, want)
    n = len(want)
    expect(len(sp) == n, "length", len(sp), n)
    got = [observe(p) for p in sp]
    expect(got == want, "iteration", got, want)
    if light:
        return want
    for i in range(-n, n):
        expect(observe(sp[i]) == want[i], f"index {i}", i)
    for i in (n, n + 3, -n - 1, -n - 2, -2 * n - 1):
        try:
            p = sp[i]
        except IndexError:
            continue
        raise Mismatch(f"index {i} of a spool of {n} patches gave a patch")
    df = sp.get_contents()
    expect(len(df) == n, "contents length", len(df), n)
    for i, it in enumerate(want):
        row = df.iloc[i]
        lo, hi = (np.datetime64(row[f"time_{x}"].to_datetime64()) for x in ("min", "max"))
        expect(lo == T0 + it["labels"][0] * SEC and hi == T0 + it["labels"][-1] * SEC, "contents time", lo, hi, it)
        expect(row["tag"] == it["tag"] and row["station"] == it["station"], "contents attrs")
        if not memory and "distance_min" not in row:  # the index of a directory
            continue
        expect(row["distance_min"] == it["chans"][0] * 10 and row["distance_max"] == it["chans"][-1] * 10, "contents distance", row["distance_min"], it)
    return want
