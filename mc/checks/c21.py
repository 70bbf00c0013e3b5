"""C21: scanning reports what reading gives, and both what the file holds."""
from __future__ import annotations

import itertools
import math
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from mc import formats as F
from mc import iopatch as io
from mc.core import SCRATCH, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of every file layout of every readable format (written by independent encoders) and of every subset of a file alphabet laid out in a directory tree with foreign files; get_format, read, scan, scan_to_df and file spool compared with each other and with what was encoded"
ASSUMPTIONS = ["files come from the encoders in mc/formats.py (no vendor sample files offline)", "an indexed DASDAE file's scan only carries the fields of its index; others are compared where present"]
BOUNDS = {
    "quick": "72 layouts of 22 formats x 9 ways to ask; every subset (with and without sub directories) of 7 data/foreign files; every ordered pair of formats in one directory; every patch of the alphabet (15 time kinds x 2 dtypes x 8 kinds of extra coordinates x 4 attribute sets x 2 orders x units) written as DASDAE and pickle",
    "thorough": "every subset of 9 files in 2 directory layouts; every ordered pair of layouts, ordered triples of formats; 8 dtypes",
}

SKIP = ("history", "coords", "path", "file_format", "file_version", "dims")
FIRST = {}
for _i, (_fn, _kw) in enumerate(F.LAYOUTS):
    FIRST.setdefault(_fn.__name__, _i)


def shards(tier):
    out = [("file", i) for i in range(len(F.LAYOUTS))]
    n = 16 if tier == "quick" else 48
    out += [("subset", k, n) for k in range(n)]
    names = list(FIRST.values()) if tier == "quick" else list(range(len(F.LAYOUTS)))
    out += [("pair", i) for i in names]
    out += [("written", f, t) for f in ("DASDAE", "PICKLE") for t in io.TIME_KINDS]
    if tier == "thorough":
        out += [("triple", i) for i in FIRST.values()]
    return out


def null(x):
    if x is None or (isinstance(x, str) and x == ""):
        return True
    try:
        return bool(x != x)
    except Exception:
        return False


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    if null(a) and null(b):
        return True
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-12, abs_tol=0)
    return bool(a == b) or str(a) == str(b)


def check_want(p, w, what):
    import dascore as dc

    expect(tuple(p.dims) == tuple(w.dims), f"{what}: dims", p.dims, w.dims)
    expect(p.data.shape == w.data.shape and np.allclose(p.data, w.data, equal_nan=True), f"{what}: data", p.data, w.data)
    for c, v in w.coords.items():
        g = p.get_array(c)
        expect(len(g) == len(v), f"{what}: length of {c}", g, v)
        if v.dtype.kind == "M":
            expect(np.abs((g - v).astype("i8")).max() <= 1000, f"{what}: labels of {c}", g, v)
        else:
            expect(np.allclose(g, v), f"{what}: labels of {c}", g, v)
    for c, u in w.units.items():
        expect(p.get_coord(c).units == dc.get_quantity(u), f"{what}: units of {c}", p.get_coord(c).units, u)
    for k, v in w.attrs.items():
        g = p.attrs.get(k)
        ok = g == dc.get_quantity(v) if k == "data_units" else (g == v or str(g) == str(v))
        expect(ok, f"{what}: attribute {k}", g, v)


def check_scan(s, p, path, fmt, what, partial=False):
    """Compare scanned attrs with the patch."""
    pa = p.attrs
    sd, pd_ = dict(s), dict(pa)
    expect(tuple(s.dim_tuple) == tuple(p.dims), f"{what}: dims", s.dim_tuple, p.dims)
    names = sorted(set(sd) | set(pd_)) if not partial else sorted(set(sd) & set(pd_))
    for k in names:
        if k in SKIP:
            continue
        if partial and null(sd.get(k)):
            continue
        expect(eq(sd.get(k), pd_.get(k)), f"{what}: attribute {k} (scan, read)", sd.get(k), pd_.get(k))
    if fmt:
        expect((sd.get("file_format", ""), sd.get("file_version", "")) == tuple(fmt), f"{what}: format", sd.get("file_format"), sd.get("file_version"), fmt)
    if path is not None:
        expect(Path(sd["path"]) == Path(path) or Path(path) in Path(sd["path"]).parents, f"{what}: path", sd["path"], path)
    sc, pc = s.coords, p.coords.to_summary_dict()
    if not partial:
        expect(set(sc) == set(pc), f"{what}: coordinates", sorted(sc), sorted(pc))
    for name in set(sc) & set(pc):
        a, b = sc[name], pc[name]
        for f in ("min", "max", "step", "units", "dtype"):
            if partial and (f == "dtype" or null(getattr(a, f))):
                continue
            va, vb = getattr(a, f), getattr(b, f)
            expect(eq(va, vb), f"{what}: {f} of coordinate {name} (scan, read)", va, vb)
        expect(partial or getattr(a, "len", None) == getattr(b, "len", None), f"{what}: length of coordinate {name}", a, b)


def key_p(p):
    return tuple(str(p.get_array(n).min()) for n in sorted(p.dims)) + tuple(repr(p.attrs.get(k, "")) for k in ("zone", "start_frequency", "tag"))


def key_s(s):
    out = []
    for n in sorted(s.dim_tuple):
        c = s.coords.get(n)
        out.append("" if c is None else str(c.min))
    return tuple(out) + tuple(repr(s.get(k, "")) for k in ("zone", "start_frequency", "tag"))


def check_df(df, scans, what, memory=False):
    """The dataframe has the same rows as the scan."""
    expect(len(df) == len(scans), f"{what}: rows", len(df), len(scans))
    for (_, row), s in zip(df.iterrows(), scans):
        flat = s.flat_dump(exclude=["history"])
        for k, v in flat.items():
            if k == "dims":
                v = ",".join(s.dim_tuple)
            if k not in row.index:
                # (files without a version are read into a memory spool)
                expect(null(v) or (memory and k in ("file_format", "path")), f"{what}: column {k} missing", v)
                continue
            g = row[k]
            if isinstance(v, np.datetime64 | np.timedelta64) and not null(g):
                g = g.to_numpy() if hasattr(g, "to_numpy") else g
            if isinstance(v, int | float) and not isinstance(v, bool) and not null(g):
                expect(np.isclose(float(g), float(v), rtol=1e-12), f"{what}: column {k}", g, v)
                continue
            expect(eq(g, v), f"{what}: column {k}", repr(g), repr(v))


def run_file(i, ctx, d):
    import dascore as dc
    from dascore.io.core import FiberIO

    path, wants = F.build(i, d)
    lab = F.label(i)
    partial = "indexed" in lab
    fmt = None
    reads, scans = [], []

    with ctx.case(dict(file=lab, ask="get_format")):
        ctx.trans(), ctx.trace()
        for form in (path, str(path)):
            fmt = dc.get_format(form)
            w = wants[0]
            expect(fmt[0] == w.fmt and (not w.version or fmt[1] == w.version), f"{lab}: format", fmt, (w.fmt, w.version))
            expect(tuple(dc.get_format(form, file_format=fmt[0])) == tuple(fmt), f"{lab}: format if name is given", fmt)
    with ctx.case(dict(file=lab, ask="read")):
        ctx.trans(), ctx.trace()
        reads = sorted(dc.read(path), key=key_p)
        ws = sorted(wants, key=lambda w: tuple(str(w.coords[n].min()) for n in sorted(w.dims)) + tuple(repr(w.attrs.get(k, "")) for k in ("zone", "start_frequency", "tag")))
        expect(len(reads) == len(ws), f"{lab}: number of patches", len(reads), len(ws))
        for p, w in zip(reads, ws):
            check_want(p, w, lab)
        ctx.state((lab, [p.shape for p in reads], fmt))
    ways = {
        "scan": lambda: dc.scan(path, progress=None),
        "scan str": lambda: dc.scan(str(path), progress=None),
        "scan list": lambda: dc.scan([path], progress=None),
        "scan format": lambda: dc.scan(path, file_format=fmt[0], file_version=fmt[1], progress=None),
        "scan format name": lambda: dc.scan(path, file_format=fmt[0], progress=None),
        "scan parent": lambda: dc.scan(Path(path).parent, progress=None),
    }
    if Path(path).is_file():
        ways["scan ext"] = lambda: dc.scan(Path(path).parent, ext=Path(path).suffix, progress=None)
        ways["scan again"] = lambda: dc.scan(path, timestamp=os.stat(path).st_mtime - 10, progress=None)
    for name, call in ways.items():
        with ctx.case(dict(file=lab, ask=name)):
            ctx.trans(), ctx.trace()
            scans = sorted(call(), key=key_s)
            expect(len(scans) == len(reads), f"{lab}: {name}: number of patches (scan, read)", len(scans), len(reads))
            for s, p in zip(scans, reads):
                check_scan(s, p, path, fmt, f"{lab}: {name}", partial)
            ctx.outcome(f"{len(scans)} patches")
    with ctx.case(dict(file=lab, ask="other formats refuse")):
        ctx.trans(), ctx.trace()
        # Each format's own detection must not claim files of another one.
        for name, cls in sorted({x.name: x for x in FiberIO.manager.yield_fiberio()}.items()):
            if name.upper() == fmt[0].upper():
                continue
            try:
                got = dc.get_format(path, file_format=name)
            except Exception:
                continue
            expect(not got or got[0].upper() == fmt[0].upper(), f"{lab}: {name} claims the file", got)
    with ctx.case(dict(file=lab, ask="scan_to_df")):
        ctx.trans(), ctx.trace()
        raw = dc.scan(path, progress=None)
        check_df(dc.scan_to_df(path, progress=None), raw, f"{lab}: scan_to_df")
        if Path(path).is_file():
            check_df(dc.spool(path).get_contents(), raw, f"{lab}: spool contents", memory=fmt[0] == "PICKLE")
    with ctx.case(dict(file=lab, ask="spool")):
        ctx.trans(), ctx.trace()
        spool = dc.spool(path)
        if Path(path).is_dir():
            spool = spool.update(progress=None)
        expect(len(spool) == len(reads), f"{lab}: length of the spool", len(spool), len(reads))
        got = sorted(spool, key=key_p)
        expect(len(got) == len(reads), f"{lab}: patches of the spool", len(got), len(reads))
        for a, b in zip(got, reads):
            io.same_patch(a, b, f"{lab}: spool: ", skip_attrs=("history",))
    with ctx.case(dict(file=lab, ask="patches")):
        ctx.trans(), ctx.trace()
        sc = dc.scan(list(reads), progress=None)
        expect(len(sc) == len(reads), f"{lab}: scan of patches", len(sc), len(reads))
        for s, p in zip(sc, reads):
            check_scan(s, p, None, None, f"{lab}: scan patches")
    ctx.sample(dict(file=lab, patches=len(wants), format=fmt))


# ------------------------------------------------------------- mixtures
def foreign(kind, path):
    path = Path(path)
    if kind == "text":
        path.write_text("not data\n1,2,3\n")
    elif kind == "empty":
        path.write_bytes(b"")
    elif kind == "noise":
        path.write_bytes(bytes((i * 37 + 11) % 256 for i in range(5000)))
    elif kind == "zeros":
        path.write_bytes(bytes(4000))
    elif kind == "h5":
        import h5py

        with h5py.File(path, "w") as f:
            f["something"] = np.arange(3)
            f.attrs["note"] = "x"


def norm(scans, root):
    out = []
    for s in scans:
        d = {k: v for k, v in s.flat_dump(exclude=["history"]).items() if not null(v) and k != "path"}
        out.append((str(Path(s["path"]).relative_to(root)), sorted((k, str(v)) for k, v in d.items())))
    return sorted(out)


def one(i, root):
    """What a layout alone gives, as (scan, patches), in a directory of its own."""
    import dascore as dc

    path, _ = F.build(i, root)
    return path, dc.scan(path, progress=None)


ALPHA_Q = ["terra15", "prodml", "text", "sentek", "empty", "h5", "tdms"]
ALPHA_T = ALPHA_Q + ["noise", "xml_binary"]


def run_subset(k, n, ctx, d):
    import dascore as dc

    alpha = ALPHA_Q if ctx.tier == "quick" else ALPHA_T
    masks = [(m, nest) for m in range(1, 2 ** len(alpha)) for nest in (0, 1)]
    for m, nest in masks[k::n]:
        names = [a for j, a in enumerate(alpha) if m >> j & 1]
        with ctx.case(dict(files=names, nested=bool(nest))):
            ctx.trans(), ctx.trace()
            root = Path(tempfile.mkdtemp(dir=d))
            want = []
            for j, a in enumerate(names):
                sub = root / (f"s{j % 2}" if nest else "")
                sub = sub / ("deep" if nest and j % 3 == 2 else "")
                sub.mkdir(parents=True, exist_ok=True)
                if a in FIRST:
                    want += one(FIRST[a], sub)[1]
                else:
                    foreign(a, sub / f"{a}.hdf5")
            got = dc.scan(root, progress=None)
            expect(norm(got, root) == norm(want, root), f"scan of a directory with {names}", [x[0] for x in norm(got, root)], [x[0] for x in norm(want, root)])
            spool = dc.spool(root).update(progress=None)
            expect(len(spool) == len(want), f"directory spool with {names}", len(spool), len(want))
            seen = sum(1 for _ in spool)
            expect(seen == len(want), f"iterating directory spool with {names}", seen, len(want))
            ctx.outcome(f"{len(want)} patches")
            ctx.state((sorted(names), nest, len(want)))
            shutil.rmtree(root)


def run_pair(i, ctx, d, n=2):
    import dascore as dc

    others = list(FIRST.values()) if ctx.tier == "quick" or n == 3 else range(len(F.LAYOUTS))
    for combo in itertools.product(others, repeat=n - 1):
        combo = (i, *combo)
        with ctx.case(dict(files=[F.label(x) for x in combo])):
            ctx.trans(), ctx.trace()
            root = Path(tempfile.mkdtemp(dir=d))
            want, paths = [], []
            for j, x in enumerate(combo):
                sub = root / f"{j}"
                sub.mkdir()
                p, sc = one(x, sub)
                paths.append(p)
                want.append(sc)
            # the order in which files are given must not matter: a hint is kept between files
            got = dc.scan(paths, progress=None)
            flat = [s for w in want for s in w]
            expect(norm(got, root) == norm(flat, root), f"scan of {[F.label(x) for x in combo]}", [x[0] for x in norm(got, root)], [x[0] for x in norm(flat, root)])
            got = dc.scan(root, progress=None)
            expect(norm(got, root) == norm(flat, root), f"scan of directory with {[F.label(x) for x in combo]}", [x[0] for x in norm(got, root)], [x[0] for x in norm(flat, root)])
            ctx.state((combo, len(flat)))
            shutil.rmtree(root)


def run_written(fmt, time, ctx, d):
    """Every patch of the alphabet, written by the library."""
    import dascore as dc

    quick = ctx.tier == "quick"
    dtypes = ("f8", "i2") if quick else io.DTYPES
    orders = (("distance", "time"), ("time", "distance"))
    n = 0
    for dtype, extra, attrs, order, units in itertools.product(dtypes, io.EXTRAS, io.ATTRS, orders, (True, False)):
        if time in ("nat", "empty"):
            continue
        case = dict(format=fmt, time=time, dtype=dtype, extra=extra, attrs=attrs, order=order, units=units)
        with ctx.case(case):
            ctx.trans(), ctx.trace()
            patch = io.make(time=time, dtype=dtype, extra=extra, attrs=attrs, order=order, units=units)
            n += 1
            path = Path(d) / f"f{n}.h5"
            dc.write(patch, path, fmt)
            expect(dc.get_format(path)[0] == fmt, "format", dc.get_format(path))
            (p,) = dc.read(path)
            scans = dc.scan(path, progress=None)
            expect(len(scans) == 1, "number of patches", len(scans))
            check_scan(scans[0], p, path, None, f"{fmt}: scan")
            check_df(dc.scan_to_df(path, progress=None), scans, f"{fmt}: scan_to_df")
            ctx.state((time, dtype, extra, attrs, order, units))
            path.unlink()


def run(shard, ctx):
    d = tempfile.mkdtemp(prefix="c21_", dir=SCRATCH)
    try:
        if shard[0] == "file":
            run_file(shard[1], ctx, d)
        elif shard[0] == "subset":
            run_subset(shard[1], shard[2], ctx, d)
        elif shard[0] == "written":
            run_written(shard[1], shard[2], ctx, d)
        elif shard[0] == "pair":
            run_pair(shard[1], ctx, d)
        else:
            run_pair(shard[1], ctx, d, n=3)
    finally:
        shutil.rmtree(d, ignore_errors=True)
