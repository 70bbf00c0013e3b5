"""C20: reading a range from a file equals reading everything and selecting."""
from __future__ import annotations

import itertools
import shutil
import tempfile

import numpy as np

from mc import formats as F
from mc import iopatch as io
from mc.core import SCRATCH, Skip, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of ranges on the half-sample grid around every dimension (all pairs incl. open, reversed, beyond; joint ranges) for every file layout of every readable format, on real files written by independent encoders; read(range) and file spool select compared with read-everything-then-select"
ASSUMPTIONS = ["files are produced by the encoders in mc/formats.py (no vendor sample files exist offline); the sentek layout follows the offsets of its reader", "patches compared deeply (data, dtype, labels, units, step, every attribute except history)"]
BOUNDS = {
    "quick": "72 layouts of 22 formats; per dimension all pairs of the half-sample grid (-1.5 samples .. +1.5 samples) up to 2.5 samples long or touching one of the outer 4 points at either end, every half open range, reversed, string, Ellipsis and far away limits; joint ranges of 5x5 pairs; every 2nd half open and every 7th closed range also through the file spool",
    "thorough": "all pairs of a quarter-sample grid extended to 3 samples outside, in both orders; all joint pairs of two dimensions; every range also through the file spool",
}


def shards(tier):
    return list(range(len(F.LAYOUTS)))


def grid(vals, fine):
    vals = np.sort(np.asarray(vals))
    n = len(vals)
    if n > 1:
        step = (vals[-1] - vals[0]) / (n - 1)
    else:
        step = np.timedelta64(10**9, "ns") if vals.dtype.kind == "M" else 1
    parts = 4 if fine else 2
    out = 3 if fine else 1.5
    ks = np.arange(-int(out * parts), int((n - 1 + out) * parts) + 1)
    if vals.dtype.kind == "M":
        s = int(step.astype("i8")) // parts
        return [vals[0] + np.timedelta64(int(k) * s, "ns") for k in ks]
    if vals.dtype.kind in "iu":
        return [float(vals[0] + k * step / parts) for k in ks]
    # exactly on the labels where k is a full sample
    return [float(vals[int(k) // parts]) if k % parts == 0 and 0 <= k // parts < n else float(vals[0] + k * step / parts) for k in ks]


def pairs(g, fine):
    for a in g:
        yield (a, None)
        yield (None, a)
    for i, j in itertools.combinations_with_replacement(range(len(g)), 2):
        if fine or j - i <= 5 or i < 4 or j >= len(g) - 4:
            yield (g[i], g[j])
    for a, b in list(itertools.combinations(g, 2))[:: 1 if fine else 7]:
        yield (b, a)
    yield (None, None)
    yield (..., g[len(g) // 2])
    yield (g[len(g) // 2], ...)
    if isinstance(g[0], np.datetime64):
        for a, b in list(itertools.combinations(g, 2))[::7]:
            yield (str(a), str(b))
            yield (str(a), None)
    # far away
    far = g[-1] + (g[-1] - g[0]) * 1000
    yield (far, far + (g[-1] - g[0]))
    yield (far, None)
    near = g[0] - (g[-1] - g[0]) * 1000
    yield (near, near + (g[-1] - g[0]))
    yield (None, near)
    yield (near, far)


def outcome(func):
    try:
        return "ok", func()
    except Exception as e:
        return "raise", e


def key(p):
    return tuple(str(p.get_array(n).min()) for n in sorted(p.dims)) + tuple(repr(p.attrs.get(k, "")) for k in ("zone", "start_frequency"))


def nonempty(patches):
    """The patches with data; their order in a file is not promised."""
    return sorted((p for p in patches if p.data.size), key=key)


def compare(got, want, q, what):
    (gk, gv), (wk, wv) = got, want
    if wk == "raise":
        # A range which cannot be selected may be refused by either side.
        expect(gk == "raise" or not gv, f"{what}{q}: select after reading raises {type(wv).__name__} ({wv}) but a patch is returned", gv)
        return
    if gk == "raise":
        raise gv
    expect(len(gv) == len(wv), f"{what}{q}: number of patches", [p.shape for p in gv], [p.shape for p in wv])
    for a, b in zip(gv, wv):
        io.same_patch(a, b, f"{what}{q}: ", skip_attrs=("history",))


def run(shard, ctx):
    import dascore as dc

    d = tempfile.mkdtemp(prefix="c20_", dir=SCRATCH)
    try:
        path, wants = F.build(shard, d)
        lab = F.label(shard)
        full = [p for p in dc.read(path)]
        dims = full[0].dims
        fine = ctx.tier == "thorough"
        # values over all patches of the file
        vals = {n: np.unique(np.concatenate([p.get_array(n) for p in full])) for n in dims}
        grids = {n: grid(vals[n], fine) for n in dims}
        queries = []
        for n in dims:
            queries += [{n: q} for q in pairs(grids[n], fine)]
        k = 1 if fine else 3
        for n1, n2 in itertools.combinations(dims, 2):
            g1, g2 = grids[n1][::k], grids[n2][::k]
            p1 = list(itertools.combinations(g1, 2))
            p2 = list(itertools.combinations(g2, 2))
            if not fine:
                p1, p2 = p1[:: max(1, len(p1) // 5)], p2[:: max(1, len(p2) // 5)]
            queries += [{n1: a, n2: b} for a in p1 for b in p2]
            queries += [{n1: a, n2: (None, g2[1])} for a in p1] + [{n1: (g1[1], None), n2: b} for b in p2]
        spool = dc.spool(path)
        fmt = dc.get_format(path)
        given = dict(file_format=fmt[0], file_version=fmt[1])
        for i, q in enumerate(queries):
            spec = dict(file=lab, query={k: [str(x) for x in v] for k, v in q.items()})
            with ctx.case(spec):
                ctx.trans(), ctx.trace()
                want = outcome(lambda: nonempty([p.select(**q) for p in full]))
                ctx.outcome(want[0] if want[0] == "raise" else f"{len(want[1])} patches")
                ctx.state((lab, want[0], [p.shape for p in want[1]] if want[0] == "ok" else type(want[1]).__name__))
                compare(outcome(lambda: nonempty(list(dc.read(path, **(given if i % 3 else {}), **q)))), want, q, f"{lab}: read")
            # (quick) every second half open and every seventh other range goes through the file spool too
            half = any(None in v or ... in v for v in q.values())
            if not (fine or (half and i % 2) or i % 7 == 0):
                continue
            with ctx.case(dict(spec, route="spool")):
                ctx.trans(), ctx.trace()
                compare(outcome(lambda: nonempty(list(spool.select(**q)))), want, q, f"{lab}: spool select")
        with ctx.case(dict(file=lab, query="format given")):
            n = dims[0]
            q = {n: (grids[n][2], grids[n][-3])}
            w = wants[0]
            want = outcome(lambda: nonempty([p.select(**q) for p in full]))
            if w.version:
                compare(outcome(lambda: nonempty(list(dc.read(path, file_format=w.fmt, file_version=w.version, **q)))), want, q, f"{lab}: read with format")
            compare(outcome(lambda: nonempty(list(dc.read(path, file_format=w.fmt, **q)))), want, q, f"{lab}: read with format")
        ctx.sample(dict(file=lab, queries=len(queries)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
