"""C05: no operation modifies what it was given."""
from __future__ import annotations

import itertools

import numpy as np
import pandas as pd

from mc.catalog import bases, build
from mc.core import expect
from mc.gen import DOMS
from mc.monitor import snap, snap_patch
from mc.ref import T0, initials, ops, sec, to_patch

LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of every operation and every ordered pair of operations applied to one shared object, with full value snapshots of the object and of all arguments before and after each call (also when it raises)"
ASSUMPTIONS = ["results may be views of the input (documented); only the effect of calls themselves is checked"]
BOUNDS = {
    "quick": "11 base patches x ~165 calls (successful or raising); all ordered pairs on one shared patch; 9 structural patches x all structural ops; 4 spools x all ordered pairs of 25 spool ops; coordinates x 25 ops",
    "thorough": "all ordered pairs on all 11 base patches",
}
N = 12


def shards(tier):
    out = [dict(kind="single", base=b) for b in bases()]
    for b in (["std"] if tier == "quick" else list(bases())):
        for k in range(N):
            out.append(dict(kind="pairs", base=b, part=k))
    out += [dict(kind="struct", init=n) for n in initials()]
    out += [dict(kind="spool", which=w, part=k) for w in range(4) for k in range(4)]
    out += [dict(kind="coords", dom=d) for d in DOMS]
    return out


def run(shard, ctx):
    globals()["run_" + shard["kind"]](shard, ctx)


def outcome(fn, *args):
    """Value of a call: a snapshot of the result or the error type."""
    try:
        res = fn(*args)
    except Exception as exc:
        return "raise:" + type(exc).__name__
    if isinstance(res, tuple | list):
        return "val:" + repr([snap(x) for x in res])
    return "val:" + snap(res)


def run_single(shard, ctx):
    mk = bases()[shard["base"]]
    for i, op in enumerate(build(mk())):
        patch = mk()
        op = build(patch)[i]
        before, abefore = snap_patch(patch), [snap(a) for a in op.args]
        with ctx.case(dict(base=shard["base"], op=op.name)):
            ctx.trans()
            res = outcome(op.fn, patch)
            ctx.outcome(op.name + (" raised" if res.startswith("raise") else ""))
            expect(snap_patch(patch) == before, f"{op.name} changed the patch it was called on")
            expect([snap(a) for a in op.args] == abefore, f"{op.name} changed an argument")
            ctx.state((shard["base"], op.name, res))
            # a second identical call on the same object gives the same
            expect(outcome(op.fn, patch) == res, f"{op.name} repeated gives another result")
            expect(snap_patch(patch) == before, f"{op.name} (second call) changed the patch")
            # the same call on a patch whose array cannot be written
            ro = mk()
            ro.data.flags.writeable = False
            rop = build(ro)[i]
            for a in rop.args:
                if isinstance(a, np.ndarray):
                    a.flags.writeable = False
            expect(outcome(rop.fn, ro) == res, f"{op.name} behaves differently on read-only data")
            ctx.trace(3)
    with ctx.case(dict(base=shard["base"], op="copies")):
        patch = mk()
        for name, res in [("select", patch.select(time=(3, 9), samples=True, copy=True)),
                          ("decimate", patch.decimate(time=2, filter_type=None, copy=True))]:
            expect(not np.shares_memory(res.data, patch.data), f"{name}(copy=True) shares memory with its input")


def run_pairs(shard, ctx):
    """op A on the shared object, then op B: B must give what it gives on a fresh object."""
    mk = bases()[shard["base"]]
    shared = mk()
    oplist = build(shared)
    before = snap_patch(shared)
    fresh = {}
    for i, op in enumerate(oplist):
        p = mk()
        fresh[op.name] = outcome(build(p)[i].fn, p)
    for i, a in enumerate(oplist):
        if i % N != shard["part"]:
            continue
        patch = mk()
        mine = build(patch)
        outcome(mine[i].fn, patch)
        for b in mine:
            with ctx.case(dict(base=shard["base"], path=[a.name, b.name])):
                ctx.trans()
                got = outcome(b.fn, patch)
                expect(got == fresh[b.name], f"{b.name} after {a.name} differs from {b.name} alone")
                ctx.state((shard["base"], a.name, b.name))
                ctx.trace()
        with ctx.case(dict(base=shard["base"], path=[a.name, "all"])):
            expect(snap_patch(patch) == before, f"patch changed by ops following {a.name}")


def run_struct(shard, ctx):
    R = initials()[shard["init"]]
    patch = to_patch(R, dict(tag="a", history=["x"]))
    before = snap_patch(patch)
    for name, args, real, _ in ops(R):
        with ctx.case(dict(init=shard["init"], op=[name, args])):
            ctx.trans()
            one = outcome(real, patch)
            expect(snap_patch(patch) == before, f"{name} changed its input")
            expect(outcome(real, to_patch(R, dict(tag="a", history=["x"]))) == one, f"{name}: shared object differs from fresh")
            ctx.state((shard["init"], name, args, one))
            ctx.trace()


# ------------------------------------------------------------------ spools
def spool_patches(which):
    import dascore as dc

    out = []
    n = 6
    for k in range(3):
        start = T0 + k * sec(n * 0.5)
        if which == 1:
            start += k * sec(10)  # gaps
        coords = dict(time=start + np.arange(n) * sec(0.5), distance=np.arange(2) * 1.0)
        if which == 2:
            coords["qual"] = ("distance", np.array([2.0, 1.0]))
        data = (np.arange(2 * n).reshape(2, n) + 100 * k).astype("f8")
        if which == 3:
            data = data.T
        dims = ("distance", "time") if which != 3 else ("time", "distance")
        out.append(dc.Patch(data=data, coords=coords, dims=dims, attrs=dict(tag=f"t{k % 2}", history=["h"])))
    return out


def spool_ops():
    return {
        "len": len,
        "first": lambda s: s[0],
        "last": lambda s: s[-1],
        "slice": lambda s: s[0:2],
        "slice-step": lambda s: s[::2],
        "list": lambda s: list(s),
        "contents": lambda s: s.get_contents(),
        "select-time": lambda s: s.select(time=(T0 + sec(1), T0 + sec(4))),
        "select-tag": lambda s: s.select(tag="t1"),
        "select-none": lambda s: s.select(tag="zzz"),
        "select-dist": lambda s: s.select(distance=(1, None)),
        "sort": lambda s: s.sort("time"),
        "sort-tag": lambda s: s.sort("tag"),
        "chunk": lambda s: s.chunk(time=1.5),
        "chunk-overlap": lambda s: s.chunk(time=2, overlap=1, keep_partial=True),
        "merge": lambda s: s.chunk(time=None),
        "merge-conflict": lambda s: s.chunk(time=None, conflict="keep_first"),
        "concat": lambda s: s.concatenate(time=None),
        "concat-new": lambda s: s.concatenate(wave=None),
        "stack": lambda s: s.stack(dim_vary="time"),
        "split": lambda s: [list(x) for x in s.split(size=2)],
        "map": lambda s: list(s.map(lambda p: p.abs(), progress=False)),
        "update": lambda s: s.update(),
        "array-index": lambda s: s[np.array([2, 0])],
        "mask-index": lambda s: s[np.arange(len(s)) % 2 == 0],
        "bad-index": lambda s: s[99],
        "str": lambda s: str(s),
        "chunk-bad": lambda s: s.chunk(time=0.0001, overlap=4),
    }


def spool_value(res):
    try:
        if hasattr(res, "get_contents"):
            return [snap_patch(p) for p in res], res.get_contents().astype(str).to_csv()
        if isinstance(res, pd.DataFrame):
            return res.astype(str).to_csv()
        return snap(res)
    except Exception as exc:
        return "raise:" + type(exc).__name__


def call(fn, spool):
    try:
        return spool_value(fn(spool))
    except Exception as exc:
        return "raise:" + type(exc).__name__


def run_spool(shard, ctx):
    import dascore as dc

    which = shard["which"]
    patches = spool_patches(which)
    psnap = [snap_patch(p) for p in patches]
    O = spool_ops()
    fresh = {k: call(f, dc.spool(spool_patches(which))) for k, f in O.items()}
    for n, (a, b) in enumerate(itertools.product(O, O)):
        if n % 4 != shard["part"]:
            continue
        with ctx.case(dict(spool=which, path=[a, b])):
            ctx.trans()
            sp = dc.spool(patches)
            s0 = spool_value(sp)
            call(O[a], sp)
            expect(spool_value(sp) == s0, f"{a} changed the spool")
            got = call(O[b], sp)
            expect(got == fresh[b], f"{b} after {a} on the same spool differs from {b} alone", got, fresh[b])
            expect([snap_patch(p) for p in patches] == psnap, f"{a}/{b} changed the patches in the spool")
            ctx.state((which, a, b))
            ctx.trace()


# ------------------------------------------------------------------ coordinates
def run_coords(shard, ctx):
    from dascore.core.coords import get_coord

    dom = DOMS[shard["dom"]]
    for gs in [(0, 1, 2, 3), (3, 2, 1, 0), (0, 1, 3), (3, 1, 0), (2, 0, 3, 1), (1,), (1, 1, 2)]:
        arr = dom.arr(gs)
        q = dom.arr([gs[-1], gs[0]])
        mask = np.arange(len(gs)) % 2 == 0
        ind = np.array([len(gs) - 1, 0])
        fns = {
            "select-range": lambda c: c.select((dom.label(1), dom.label(2))),
            "select-arr": lambda c: c.select(q),
            "select-mask": lambda c: c.select(mask),
            "select-ind": lambda c: c.select(ind, samples=True),
            "order-arr": lambda c: c.order(q),
            "order-ind": lambda c: c.order(ind, samples=True),
            "sort": lambda c: c.sort(),
            "sort-rev": lambda c: c.sort(reverse=True),
            "snap": lambda c: c.snap(),
            "update-limits": lambda c: c.update_limits(min=dom.label(5)),
            "update-data": lambda c: c.update(data=q),
            "set_units": lambda c: c.set_units("m"),
            "convert": lambda c: c.set_units("m").convert_units("ft"),
            "index": lambda c: c[1:],
            "index-arr": lambda c: c[ind],
            "change_length": lambda c: c.change_length(2),
            "next": lambda c: c.get_next_index(dom.label(1)),
            "values": lambda c: c.values,
            "summary": lambda c: c.to_summary(),
            "eq": lambda c: c == get_coord(data=q),
            "reduce": lambda c: c.reduce_coord(),
            "align": lambda c: c.align_to(get_coord(data=q)),
            "empty": lambda c: c.empty(),
            "str": lambda c: str(c),
            "len": lambda c: len(c),
        }

        def val(c):
            return (type(c).__name__, snap(np.asarray(c.values)), str(c.units), str(c.step), c.shape, str(c.dtype),
                    *((str(c.min()), str(c.max())) if len(c) else ("", "")), c.sorted, c.reverse_sorted, c.evenly_sampled)

        def cout(fn, c):
            def enc(r):
                return val(r) if hasattr(r, "reverse_sorted") else snap(r) if isinstance(r, np.ndarray) else repr(r)
            try:
                r = fn(c)
            except Exception as exc:
                return "raise:" + type(exc).__name__
            return repr([enc(x) for x in r]) if isinstance(r, tuple) else enc(r)

        fresh = {k: cout(f, get_coord(data=arr.copy())) for k, f in fns.items()}
        args = [arr.copy(), q.copy(), mask.copy(), ind.copy()]
        for a, b in itertools.product(fns, fns):
            with ctx.case(dict(dom=shard["dom"], labels=gs, path=[a, b])):
                ctx.trans()
                src = arr.copy()
                c = get_coord(data=src)
                v0 = val(c)
                cout(fns[a], c)
                expect(val(c) == v0, f"{a} changed the coordinate")
                expect(cout(fns[b], c) == fresh[b], f"{b} after {a} differs from {b} alone")
                expect(all(snap(x) == snap(y) for x, y in zip(args, [src, q, mask, ind])), f"{a}/{b} changed an argument array")
                ctx.state((shard["dom"], gs, a, b))
                ctx.trace()
