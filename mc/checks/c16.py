"""C16: the same data gives the same spool from memory, file or directory."""
from __future__ import annotations

import shutil
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd

from mc.checks import c15
from mc.checks.c15 import CORE, INITS, SEC, adopt, check_spool, item, key, observe, step
from mc.core import expect
from mc.gen import same
from mc.ref import T0

LEVEL = "model_checking"
TECHNIQUE = "explicit-state search over all spool operation histories to a depth on every storage layout (one file, one file per patch, nested folders, mixed formats, several patches per file, warm and new index), each state compared with the list-of-patches model and, patch by patch and column by column, with the memory spool driven through the same history"
ASSUMPTIONS = ["the starting order of a directory is the directory's own (the memory spool is given the same order)", "attributes that say where a patch came from (path, format, version) are not compared", "range bounds lie on samples or beyond the data"]
BOUNDS = {
    "quick": "5 starting collections, the richest on 8 layouts and the others on 2, x 19 operations followed by 7 operations (depth 2)",
    "thorough": "5 collections x 8 layouts x 19 operations to depth 2 and 10 operations to depth 3",
}
OPS = [*c15.OPS, c15.op_select_dist(None, 10)]
CORE = [*CORE, len(OPS) - 1]
NAMES = ("select time 3..8", "select dist 10..None", "array odd", "sort time", "chunk None 0 False", "chunk 4 1 True", "select dist None..10")
SECOND = [k for k in CORE if OPS[k][0] in NAMES]
UPDATE = [i for i, o in enumerate(OPS) if o[0] == "update"][0]
ALL = [i for i in range(len(OPS)) if i != UPDATE]
LAYOUTS = ("file", "file-indexed", "dir", "dir-warm", "dir-nested", "dir-pairs", "dir-mixed", "dir-updated")
COLLECTIONS = {k: v for k, v in INITS.items() if k != "empty"}
COLLECTIONS["rich"] = [item(0, 5, "A", "t1"), item(5, 5, "A", "t1"), item(3, 4, "B", "t2", chans=(1, 2)), item(12, 2, "A", "t1")]


def shards(tier):
    out = []
    for init in COLLECTIONS:
        for lay in LAYOUTS if init == "rich" or tier != "quick" else ("file-indexed", "dir-pairs"):
            for first in ALL:
                out.append(dict(init=init, layout=lay, first=first, depth=2, alpha="second" if tier == "quick" else "all"))
            if tier != "quick":
                out += [dict(init=init, layout=lay, first=f, second=s, depth=3, alpha="core") for f in CORE for s in CORE if UPDATE not in (f, s)]
    if tier == "quick":
        # one process per storage, not per operation
        seen, res = {}, []
        for s in out:
            seen.setdefault((s["init"], s["layout"]), []).append(s["first"])
        for (i, l), f in seen.items():
            res += [dict(init=i, layout=l, firsts=f[:8], depth=2, alpha="second"), dict(init=i, layout=l, firsts=f[8:], depth=2, alpha="second")]
        return res
    return out


def build(it, rich):
    p = c15.build(it)
    if rich:
        p = p.transpose("time", "distance").set_units("m/s", distance="ft").update_attrs(custom=3, network="net", history=["a", "b"])
        p = p.update_coords(qual=("distance", np.array(it["chans"]) * 7))
    return p


def store(layout, patches, d):
    """Put the patches where the layout says and open them."""
    import dascore as dc

    if layout.startswith("file"):
        f = d / "all.h5"
        for p in patches:
            dc.write(p, f, "dasdae")
        if layout == "file-indexed":
            dc.spool(f).update()
        return dc.spool(f)
    if layout == "dir-pairs":
        for i in range(0, len(patches), 2):
            dc.write(dc.spool(patches[i : i + 2]), d / f"pair{i}.h5", "dasdae")
    else:
        for i, p in enumerate(patches):
            sub = d
            if layout == "dir-nested":
                sub = d / f"s{i % 2}" / f"n{i}"
                sub.mkdir(parents=True, exist_ok=True)
            if layout == "dir-mixed" and i % 2:
                dc.write(p, sub / f"p{i}.pkl", "pickle")
            else:
                dc.write(p, sub / f"p{i}.h5", "dasdae")
            if layout == "dir-updated":  # the index grows file by file
                dc.spool(d).update()
    sp = dc.spool(d).update()
    if layout == "dir-warm":
        sp = dc.spool(d)
    return sp


def run(shard, ctx):
    import dascore as dc

    items = COLLECTIONS[shard["init"]]
    rich = shard["init"] == "rich"
    d = Path(tempfile.mkdtemp(prefix="vpmc16_"))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            patches = [build(i, rich) for i in items]
            with ctx.case(dict(init=shard["init"], layout=shard["layout"], history=[])):
                sp = store(shard["layout"], patches, d)
                got = [observe(p) for p in sp]
                expect(sorted(map(key, got)) == sorted(map(key, items)), "stored patches", got)
                by = {key(i): p for i, p in zip(items, patches)}
                mem = dc.spool([by[key(g)] for g in got])
                check_spool(sp, got, memory=False)
                against(sp, mem)
                alpha = [k for k in ({"core": CORE, "second": SECOND, "all": ALL}[shard["alpha"]]) if k != UPDATE]
                for first in shard.get("firsts") or [shard["first"]]:
                    explore(ctx, dict(shard, first=first), sp, mem, got, (), alpha)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def explore(ctx, shard, sp, mem, items, hist, alpha):
    depth = len(hist)
    if depth >= shard["depth"]:
        return
    todo = [shard["first"]] if depth == 0 else [shard["second"]] if depth == 1 and "second" in shard else alpha
    for k in todo:
        name, impl, model = OPS[k]
        h = (*hist, name)
        ok = False
        with ctx.case(dict(init=shard["init"], layout=shard["layout"], history=h)):
            ctx.trans()
            ctx.state((shard["init"], shard["layout"], h))
            new, want = step(sp, items, impl, model)
            mnew = impl(mem)
            if "second" in shard and depth < 2:
                want = adopt(new, want)
            else:
                if depth == 1:
                    got = list(new)
                    seen = [observe(p) for p in got]
                    want = adopt(new, want, seen)
                    expect(seen == want and len(new) == len(want), "iteration", seen, want)
                    against(new, mnew, got)
                else:
                    want = check_spool(new, want, memory=False)
                    against(new, mnew)
            ctx.trace()
            ok = True
        if ok:
            explore(ctx, shard, new, mnew, want, h, alpha)


SOURCE = {"path", "file_format", "file_version", "coords"}


def norm(v):
    if isinstance(v, (list, tuple)):
        return tuple(norm(x) for x in v)
    try:
        if pd.isnull(v):
            return None
    except (TypeError, ValueError):
        pass
    if isinstance(v, (pd.Timestamp, pd.Timedelta, np.datetime64, np.timedelta64)):
        return int(pd.Timestamp(v).as_unit("ns").value if isinstance(v, (pd.Timestamp, np.datetime64)) else pd.Timedelta(v).as_unit("ns").value)
    if isinstance(v, (float, np.floating)):
        return float(v)
    return str(v) or None


def against(sp, mem, got=None):
    """The storage spool and the memory spool hold the same patches in the same order."""
    a, b = list(sp) if got is None else got, list(mem)
    expect(len(a) == len(b), "number of patches", len(a), len(b))
    if [key(observe(x)) for x in a] != [key(observe(x)) for x in b]:
        # the order within equal sort keys, or of separate chunks, is open
        order = {key(observe(x)): i for i, x in enumerate(b)}
        perm = [order.get(key(observe(x)), -1) for x in a]
        expect(sorted(perm) == list(range(len(b))), "patches", [key(observe(x)) for x in a], [key(observe(x)) for x in b])
    else:
        perm = list(range(len(b)))
    for x, i in zip(a, perm):
        y = b[i]
        expect(x.dims == y.dims and x.data.dtype == y.data.dtype, "dims or dtype", x.dims, y.dims)
        expect(same(np.asarray(x.data), np.asarray(y.data)), "data")
        expect(set(x.coords.coord_map) == set(y.coords.coord_map), "coordinates", sorted(x.coords.coord_map), sorted(y.coords.coord_map))
        for n in y.coords.coord_map:
            expect(same(np.asarray(x.get_array(n)), np.asarray(y.get_array(n))), "labels", n)
            cx, cy = x.get_coord(n), y.get_coord(n)
            expect(cx.units == cy.units and norm(cx.step) == norm(cy.step), "units or step", n, cx, cy)
        ax, ay = (z.attrs.model_dump(exclude=SOURCE) for z in (x, y))
        for k in set(ax) | set(ay):
            expect(norm(ax.get(k)) == norm(ay.get(k)), "attribute", k, ax.get(k), ay.get(k))
    da, db = sp.get_contents(), mem.get_contents()
    expect(len(da) == len(db), "contents length", len(da), len(db))
    for c in sorted(set(da.columns) & set(db.columns) - SOURCE - {"history"}):
        if c.endswith("_dtype") or c.startswith("_"):  # not kept by the file's own index
            continue
        ca, cb = [norm(v) for v in da[c]], [norm(v) for v in db[c]]
        if not any(ca):  # a file's own index does not keep everything
            continue
        expect(ca == [cb[i] for i in perm], "contents column", c, ca, cb)
    assert T0 is not None and SEC is not None
