"""C19: writing patches to a DASDAE file and reading back loses nothing."""
from __future__ import annotations

import itertools
import os
import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np

from mc import iopatch as io
from mc.core import SCRATCH, Mismatch, Skip, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of patch shapes (coordinate kind x dtype x associated coordinates x attributes) and explicit-state search over all write/re-open histories of a real file to a depth, against a set-of-patches model"
ASSUMPTIONS = ["a patch written again (same attributes incl. history, same coordinates) replaces the stored one, as the repository's tests demand", "deep comparison is independent of dascore's equality (dtype, labels, units, step, every attribute)"]
BOUNDS = {
    "quick": "15 time coordinate kinds x 8 dtypes x 8 extra coordinates x 4 attribute sets (all pairs of the last three fully crossed with the coordinate kinds), both dim orders; histories: all sequences of 2 out of 16 single/multi-patch writes, of 3 whose first two are out of 10, with and without index",
    "thorough": "the full product; histories of <=4 writes out of 10, <=3 of 16",
}


# ---------------------------------------------------------------- single round trips
def product(tier):
    for t, d, e, a in itertools.product(io.TIME_KINDS, io.DTYPES, io.EXTRAS, io.ATTRS):
        base = (d == "f8") + (e == "none") + (a == "none")
        if tier == "quick" and base < 1:
            continue
        if tier == "quick" and base == 1 and io.TIME_KINDS.index(t) % 4 != (io.DTYPES.index(d) + io.EXTRAS.index(e) + io.ATTRS.index(a)) % 4:
            continue
        yield t, d, e, a


def special():
    """(name, patch) not covered by the product."""
    import dascore as dc

    base = io.make(extra="assoc", attrs="some")
    out = [
        ("1d time", io.one_d()), ("1d distance", io.one_d("distance", "float")), ("1d other", io.one_d("rank", "int")), ("1d empty", io.one_d("time", "empty")), ("3d", io.three_d()),
        ("empty patch", dc.Patch()),
        ("fortran", base.update(data=np.asfortranarray(base.data))), ("strided", base.update(data=np.repeat(base.data, 2, axis=1)[:, ::2])),
        ("broadcast", base.update(data=np.broadcast_to(np.array([1.0, 2.0, 3.0])[:, None], (3, 4)))), ("broadcast0", base.update(data=np.broadcast_to(np.float64(7.5), (3, 4)))), ("reversed view", base.update(data=base.data[::-1, ::-1])),
        ("mean", base.mean("time")), ("squeeze", base.mean("time").squeeze()), ("first", base.first("distance")),
        ("dft", base.dft("time")), ("units", base.set_units("strain/s", distance="ft")), ("degC", base.set_units("degC")),
        ("renamed", base.rename_coords(time="money")), ("underscore", base.rename_coords(distance="my_dist_step")),
        ("rolled", base.rolling(time=2, samples=True).mean()), ("nodimunits", io.make(units=False)),
        ("coordset", base.update_coords(new=("time", np.arange(4)))), ("nan dist", base.update_coords(distance=np.array([1.0, np.nan, 3.0]))),
        ("dup dist", base.update_coords(distance=np.array([1.0, 1.0, 3.0]))),
        ("long history", base.update_attrs(history=[f"step{i}()" for i in range(60)])),
        ("long tag", base.update_attrs(tag="x" * 90)), ("empty history", base.update_attrs(history=[])), ("empty tag", base.update_attrs(tag="")),
        ("int32 coord", base.update_coords(distance=np.arange(3, dtype="i4"))), ("f32 coord", base.update_coords(distance=np.arange(3, dtype="f4") / 4)),
        ("us coord", base.update_coords(time=np.arange(4).astype("M8[us]"))),
    ]
    return out


def shards(tier):
    prod = list(product(tier))
    n = 24
    out = [dict(job="one", k=k, n=n) for k in range(n)]
    out += [dict(job="special", index=i) for i in (False, True)]
    # writes of a history: spread the first one or two choices
    W = range(len(WRITES))
    for i, j in itertools.product(W, repeat=2):
        deep = tier != "quick" or (i in CORE and j in CORE)
        out.append(dict(job="hist", first=i, second=j, depth=3 if deep else 2))
    if tier != "quick":
        for i, j in itertools.product(CORE, repeat=2):
            out.append(dict(job="hist", first=i, second=j, depth=4, core=True))
    return out


def run(shard, ctx):
    with warnings.catch_warnings(), tempfile.TemporaryDirectory(dir=SCRATCH) as tmp:
        warnings.simplefilter("ignore")
        if shard["job"] == "one":
            run_one(shard, ctx, Path(tmp))
        elif shard["job"] == "special":
            run_special(shard, ctx, Path(tmp))
        else:
            run_hist(shard, ctx, Path(tmp))


def round_trip(p, path, index=False, twice=False):
    import dascore as dc

    if path.exists():
        os.remove(path)
    before = np.array(p.data, copy=True)
    for _ in range(2 if twice else 1):
        dc.write(p, path, "dasdae", index=index)
    out = dc.read(path)
    expect(len(out) == 1, "number of patches read", len(out))
    io.same_patch(out[0], p)
    expect(io.same(before, p.data), "write changed the patch")
    return out[0]


def run_one(shard, ctx, tmp):
    import dascore as dc

    for i, (t, d, e, a) in enumerate(product(ctx.tier)):
        if i % shard["n"] != shard["k"]:
            continue
        order = ("distance", "time") if (i // shard["n"]) % 2 else ("time", "distance")
        with ctx.case(dict(time=t, dtype=d, extra=e, attrs=a, order=order)):
            ctx.trans()
            ctx.state((t, d, e, a))
            p = io.make(t, d, e, a, order)
            got = round_trip(p, tmp / "one.h5", twice=i % 3 == 0)
            # and once more through the file: nothing accumulates
            if i % 5 == 0:
                io.same_patch(round_trip(got, tmp / "two.h5"), p, "second trip ")
            if i % 7 == 0 and t not in ('nat', 'empty'):  # samples without labels can't be queried
                sp = dc.spool(tmp / "one.h5")
                expect(len(sp) == 1, "file spool length", len(sp))
                io.same_patch(sp[0], p, "file spool ")
            ctx.trace()
            ctx.outcome(t)


def run_special(shard, ctx, tmp):
    for name, p in special():
        with ctx.case(dict(special=name, index=shard["index"])):
            ctx.trans()
            ctx.state(("special", name, shard["index"]))
            round_trip(p, tmp / "s.h5", index=shard["index"])
            round_trip(p, tmp / "s.h5", index=shard["index"], twice=True)
            ctx.trace()
            ctx.outcome("special")


# ---------------------------------------------------------------- histories
def alphabet():
    """Patches with the same, or nearly the same, default names."""
    base = io.make(time="sub", attrs="some")
    return dict(
        base=base,
        later=base.update_coords(time=base.get_array("time") + 20 * io.MS),  # same second
        tail=base.update_coords(time=base.get_array("time") + 20 * io.SEC),
        dist=base.update_coords(distance=base.get_array("distance") + 1000),  # same times
        proc=base.update(data=base.data * 2).update_attrs(history=["one(a=1)", "two()", "scaled()"]),
        short=base.select(distance=(0, 2), samples=True),
        assoc=base.update_coords(zone=("distance", np.array([4.0, 5.0, 6.0]))),
        chan=base.rename_coords(distance="channel"),
        T=base.transpose("time", "distance"),
        line=io.one_d("time", "sub"),
        stat=base.update_attrs(station="S_2"),
        custom=base.update_attrs(instrument_id="other"),
        half=io.make(time="float"),
    )


WRITES = [("base",), ("later",), ("dist",), ("proc",), ("assoc",), ("chan",), ("line",), ("half",), ("base", "later"), ("tail", "dist", "base"), ("proc", "base", "custom"), ("short", "T", "stat"), ("base", "base"), ("base", "index"), ("dist", "later", "index"), ("filespool",)]
CORE = [0, 1, 2, 4, 6, 9, 10, 13, 14, 15]


def run_hist(shard, ctx, tmp):
    alpha = alphabet()
    tail_choices = CORE if shard.get("core") else range(len(WRITES))
    # the source of writes from a file spool: several patches in one file
    src = tmp / "src.h5"
    import dascore as dc

    dc.write(dc.spool([alpha["later"], alpha["tail"], alpha["dist"]]), src, "dasdae")
    explore(ctx, shard, tmp, alpha, src, None, [], (), tail_choices)


def explore(ctx, shard, tmp, alpha, src, path, stored, hist, choices):
    depth = len(hist)
    if depth >= shard["depth"]:
        return
    if depth == 0:
        todo = [shard["first"]]
    elif depth == 1:
        todo = [shard["second"]]
    else:
        todo = choices
    for k in todo:
        h = (*hist, WRITES[k])
        new_path = tmp / f"h{depth}.h5"
        ok = False
        with ctx.case(dict(history=h)):
            ctx.trans()
            ctx.state(h)
            if new_path.exists():
                os.remove(new_path)
            if path is not None:
                shutil.copy(path, new_path)
            new = apply(new_path, WRITES[k], alpha, src, stored)
            check(new_path, new, alpha)
            ctx.trace()
            ctx.outcome("+".join(WRITES[k]))
            ok = True
        if ok:
            explore(ctx, shard, tmp, alpha, src, new_path, new, h, choices)


def apply(path, write, alpha, src, stored):
    import dascore as dc

    if write == ("filespool",):
        dc.write(dc.spool(src), path, "dasdae")
        names = ["later", "tail", "dist"]
    else:
        index = "index" in write
        names = [w for w in write if w != "index"]
        arg = alpha[names[0]] if len(names) == 1 else dc.spool([alpha[n] for n in names])
        dc.write(arg, path, "dasdae", index=index)
    return stored + [n for n in dict.fromkeys(names) if n not in stored]


def check(path, names, alpha):
    import dascore as dc

    got = list(dc.read(path))
    left = list(names)
    for p in got:
        hit = next((n for n in left if io.is_same(p, alpha[n])), None)
        expect(hit is not None, "a patch which was not written (or was altered or duplicated)", p, "left", left)
        left.remove(hit)
    expect(not left, "patches lost", left)
    expect(len(dc.scan(path)) == len(names), "scan finds", len(dc.scan(path)), names)
    sp = dc.spool(path)
    expect(len(sp) == len(names), "file spool length", len(sp), names)
