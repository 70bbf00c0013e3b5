"""C25: files are closed on every exit path; failed writes leave stored data alone."""
from __future__ import annotations

import gc
import json
import os
import resource
import shutil
import signal
import tempfile
import time
import warnings
from pathlib import Path

import numpy as np

from mc import faults
from mc import formats as F
from mc import iopatch as io
from mc.core import SCRATCH, CaseTimeout, Mismatch, StopShard, expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault injection on the real code: every call the library makes into an I/O library (HDF5, PyTables, pandas storage, pickle, segyio, scipy, os, io) during every operation is made to fail, one at a time, and pickle writes additionally run out of space at every byte; after each failure open descriptors, file bytes, the stored patches and a repetition of the operation are compared with a run without failures"
ASSUMPTIONS = [
    "an I/O call fails before it has an effect (a call failing after its effect is the same as the next one failing); calls which close files do not fail",
    "a full disk inside libhdf5 is excluded (HDF5 itself leaves the file unreadable)",
]
BOUNDS = {
    "quick": "9 reading operations x one layout of each of 22 formats, 15 kinds of writes, 8 index operations; an error at the first and last occurrence of every I/O call site (index operations: the first), interrupts at a third of those of writes and a fourth of index operations; 4 natural write errors; pickle writes limited at the first and last 40 bytes and every 16th between; in-place changes to the data of every layout",
    "thorough": "every layout and every occurrence of every I/O call, with errors and interrupts; pickle writes limited at every byte",
}
FIRST = {}
for _i, (_fn, _kw) in enumerate(F.LAYOUTS):
    FIRST.setdefault(_fn.__name__, _i)


class Injected(OSError):
    """The injected failure."""


def shards(tier):
    out = []
    for i in (FIRST.values() if tier == "quick" else range(len(F.LAYOUTS))):
        out.append(("read", i))
    for name in WRITES:
        n = 4 if tier == "quick" else 8
        out += [("write", name, k, n) for k in range(n)]
    for name in INDEX:
        n = 6 if tier == "quick" else 12
        out += [("index", name, k, n) for k in range(n)]
    out += [("natural",)] + [("disk", k, 4) for k in range(4)] + [("inplace", i) for i in range(len(F.LAYOUTS))]
    return sorted(out, key=lambda s: s[0] not in ("write", "index"))


def files_of(root):
    root = Path(root)
    paths = sorted(p for p in root.rglob("*") if p.is_file() and ".dascore_index" not in p.name) if root.is_dir() else [root]
    return {str(p): p.read_bytes() for p in paths}


def attempt(func):
    """('ok', value) or ('error', type name); nothing of the error is kept."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", func()
        except (CaseTimeout, StopShard):
            raise
        except BaseException as e:
            return "error", f"{type(e).__name__}: {str(e)[:200]}"


def released(root, what):
    """No file below root is open any more."""
    left = faults.open_files(root)
    if left:  # Only cyclic references may delay this.
        gc.collect()
        left = faults.open_files(root)
    expect(not left, f"{what}: files left open", left)


def same_all(got, want, what):
    expect(len(got) == len(want), f"{what}: number of patches", len(got), len(want))
    for g, w in zip(got, want):
        io.same_patch(g, w, what)


def rows(scans):
    return [sorted((k, str(v)) for k, v in s.flat_dump(exclude=["history"]).items()) for s in scans]


# ---------------------------------------------------------------- reading
def all_formats(path):
    """Every format looks at the file."""
    import dascore as dc

    fibers = sorted(dc.io.FiberIO.manager.yield_fiberio(), key=lambda f: (f.name, f.version))
    return [(f.name, f.version, f.get_format(path)) for f in fibers if type(f).get_format.func is not dc.io.FiberIO.get_format]


def reading(path):
    import dascore as dc

    fmt, version = dc.get_format(path)
    fiber = dc.io.FiberIO.manager.get_fiberio(format=fmt, version=version)
    return {
        "get_format": (lambda: dc.get_format(path), None),
        "read": (lambda: list(dc.read(path)), "patches"),
        "read as": (lambda: list(dc.read(path, file_format=fmt, file_version=version)), "patches"),
        "scan": (lambda: rows(dc.scan(path, progress=None)), None),
        "spool": (lambda: list(dc.spool(path)), "patches"),
        "direct get_format": (lambda: [tuple(fiber.get_format(path) or ())], None),
        "direct read": (lambda: list(fiber.read(path)), "patches"),
        "direct scan": (lambda: rows(fiber.scan(path)), None),
        "all formats": (lambda: all_formats(path), None),
    }


def run_read(i, tier, ctx):
    tmp = Path(tempfile.mkdtemp(prefix="c25_", dir=SCRATCH))
    lab = F.label(i)
    try:
        path, _ = F.build(i, tmp)
        for name, (op, kind) in reading(path).items():
            op()
            base = op()
            before = files_of(tmp)
            with faults.Faults() as f:
                op()
            released(tmp, f"{lab} {name}")
            points = faults.pick(f.sites, 1 if name == "all formats" else 2) if tier == "quick" else range(len(f.sites))
            kinds = [Injected] if tier == "quick" else [Injected, KeyboardInterrupt]
            for error in kinds:
                for k in points:
                    case = [lab, name, k, error.__name__]
                    ctx.state(case)
                    ctx.trans()
                    with ctx.case(case):
                        what = f"{lab}, {name}, failure of {f.sites[k][1]} (line {f.sites[k][0][1]})"
                        with faults.Faults(k, error) as g:
                            how, got = attempt(op)
                        expect(g.hit is not None, f"{what}: not reached")
                        if how == "ok":
                            ctx.outcome("failure handled")
                            if kind:
                                if len(got) != 0:
                                    same_all(got, base, f"{what}: after a failure which was handled, ")
                            else:
                                expect(got == base or got in ([], [()]) or name == "all formats", f"{what}: result after a failure which was handled", got, base)
                        else:
                            ctx.outcome("failure raised")
                        del got
                        released(tmp, what)
                        expect(files_of(tmp) == before, f"{what}: the files changed")
                        got = op()
                        if kind:
                            same_all(got, base, f"{what}: repeated, ")
                        else:
                            expect(got == base, f"{what}: repeated", got, base)
                        del got
                        released(tmp, f"{what}: repeated")
    finally:
        shutil.rmtree(tmp)


# ---------------------------------------------------------------- writing
def P(k, **kw):
    p = io.make(time=kw.pop("time", "even"), extra=kw.pop("extra", "none"), attrs="some")
    p = p.update(data=p.data + 100 * k)
    shift = kw.pop("shift", 0)
    if shift:
        p = p.update_coords(time=p.get_array("time") + shift * io.SEC)
    return p.update_attrs(tag=kw.pop("tag", f"k{k}"), **kw)


class Write:
    """One kind of write: a base file and what is written to it."""

    def __init__(self, name, d):
        import dascore as dc

        self.name, self.fmt = name, name.split()[0]
        self.ext = {"dasdae": "h5", "pickle": "pkl", "wav": "wav", "rsf": "rsf", "segy": "sgy", "rsf2": "rsf", "wavdir": ""}[self.fmt]
        self.base = Path(d) / f"base {name}.{self.ext}"
        self.path = Path(d) / "work" / f"f.{self.ext}".rstrip(".")
        self.old = []
        self.base.unlink(missing_ok=True)
        kind = name.split(" ", 1)[1]
        one, two, three = P(1), P(2, shift=100, extra="assoc"), P(3, shift=50)
        self.kwargs = {}
        if self.fmt in ("dasdae", "pickle"):
            if kind != "new":
                self.old = [one, two]
                dc.write(dc.spool(self.old), self.base, self.fmt, **({"index": True} if "indexed" in kind else {}))
            self.new = {"new": [one, two], "append": [three], "indexed append": [three], "append two": [three, P(4, shift=7, extra="assoc")],
                        "replace": [one], "indexed replace": [two], "index": [three], "mixed": [two, three]}[kind]
            if kind == "index":
                self.kwargs["index"] = True
        else:
            p = io.make(time="sub" if self.fmt == "segy" else "even", extra="none", attrs="some")
            p = p.update(data=p.data.astype("f4"))
            self.new = [p]
            if self.fmt == "rsf2":
                self.kwargs["data_path"] = str(Path(d) / "work" / "f_data.rsf")
        self.merged = [*self.old, *(p for p in self.new if not any(io.is_same(p, o) for o in self.old))]

    def reset(self):
        import dascore as dc  # noqa: F401

        if self.path.parent.exists():
            shutil.rmtree(self.path.parent)
        self.path.parent.mkdir()
        if self.base.exists():
            shutil.copyfile(self.base, self.path)

    def write(self):
        import dascore as dc

        fmt = {"rsf2": "rsf", "wavdir": "wav"}.get(self.fmt, self.fmt)
        dc.write(dc.spool(self.new), self.path, fmt, **self.kwargs)

    @property
    def multi(self):
        return self.fmt in ("dasdae", "pickle")


WRITES = ["dasdae new", "dasdae append", "dasdae append two", "dasdae indexed append", "dasdae replace", "dasdae indexed replace", "dasdae index", "dasdae mixed",
          "pickle new", "pickle append", "wav new", "wavdir new", "rsf new", "rsf2 new", "segy new"]


def content(path):
    import dascore as dc

    return list(dc.read(path)) if Path(path).exists() else []


def match(got, allowed, what):
    """Every patch is one of the allowed ones, none twice; returns the ones not there."""
    left = list(allowed)
    for g in got:
        hit = next((n for n, w in enumerate(left) if io.is_same(g, w)), None)
        expect(hit is not None, f"{what}: altered, partial or duplicated patch", g)
        left.pop(hit)
    return left


def check_written(w, what):
    """After a failed write."""
    import dascore as dc

    if not w.old and not w.path.exists():
        return
    if w.old:
        got = content(w.path)
        missing = match(got, w.merged, what)
        expect(not any(io.is_same(m, o) for m in missing for o in w.old), f"{what}: stored patches lost", [m.attrs.tag for m in missing])
        scans = dc.scan(w.path, progress=None)
        expect(sorted(s.tag for s in scans) == sorted(p.attrs.tag for p in got), f"{what}: scan", sorted(s.tag for s in scans), sorted(p.attrs.tag for p in got))
        sp = dc.spool(w.path)
        match(list(sp), got, f"{what}: spool of the file")
        expect(len(sp) == len(got), f"{what}: length of the spool of the file", len(sp), len(got))
    else:
        how, got = attempt(lambda: content(w.path))
        if how == "ok" and w.multi:
            match(got, w.merged, what)


def check_retried(w, final, what):
    if w.multi:
        got = content(w.path)
        expect(not match(got, w.merged, what), f"{what}: patches missing")
        import dascore as dc

        expect(len(dc.scan(w.path, progress=None)) == len(w.merged), f"{what}: scan")
        expect(len(list(dc.spool(w.path))) == len(w.merged), f"{what}: spool of the file")
    else:
        expect(list(final) == list(got := parts(w)), f"{what}: files", list(got), list(final))
        expect(final == got, f"{what}: content of the files")


def parts(w):
    """The files written, without the date in RSF headers."""
    out = {}
    for p, b in files_of(w.path.parent).items():
        if w.fmt.startswith("rsf"):
            b = b"\n".join(x for x in b.split(b"\n") if not x.startswith(b"DASCORE"))
        out[p] = b
    return out


def run_write(name, part, n, tier, ctx):
    tmp = Path(tempfile.mkdtemp(prefix="c25_", dir=SCRATCH))
    try:
        w = Write(name, tmp)
        for _ in range(2):
            w.reset()
            w.write()
        final = parts(w)
        check_retried(w, final, f"{name} without failures")
        w.reset()
        with faults.Faults() as f:
            w.write()
        released(tmp, name)
        points = faults.pick(f.sites, 2) if tier == "quick" else range(len(f.sites))
        cases = [(k, e) for e in (Injected, KeyboardInterrupt) for k in points]
        if tier == "quick":  # interrupts at every third one
            cases = cases[: len(points)] + cases[len(points) :: 3]
        for k, error in cases[part::n]:
            case = [name, k, error.__name__]
            ctx.state(case)
            ctx.trans()
            with ctx.case(case):
                what = f"{name}, {error.__name__} at {f.sites[k][1]} (line {f.sites[k][0][1]} of {Path(f.sites[k][0][0]).name})"
                w.reset()
                with faults.Faults(k, error) as g:
                    how, _ = attempt(w.write)
                expect(g.hit is not None, f"{what}: not reached")
                released(tmp, what)
                if how == "ok":
                    ctx.outcome("failure handled")
                    check_retried(w, final, f"{what} (no error was raised)")
                    continue
                ctx.outcome("failure raised")
                check_written(w, what)
                w.write()
                check_retried(w, final, f"{what}: write repeated")
                released(tmp, what)
    finally:
        shutil.rmtree(tmp)


# ---------------------------------------------------------------- natural errors
class Unpicklable:
    def __reduce__(self):
        raise TypeError("can't be pickled")


def run_natural(tier, ctx):
    """Patches which can't be written, as part of a spool with ones that can."""
    import dascore as dc

    tmp = Path(tempfile.mkdtemp(prefix="c25_", dir=SCRATCH))
    bad = {
        "object data": lambda: P(9, shift=9).update(data=np.array([[Unpicklable()] * 3] * 4, dtype=object)),
        "attribute": lambda: P(9, shift=9).update_attrs(odd=Unpicklable()),
        "object coordinate": lambda: P(9, shift=9).update_coords(odd=("time", np.array([Unpicklable()] * 4, dtype=object))),
        "generator": None,
    }
    try:
        for fmt in ("dasdae", "pickle"):
            for name, make in bad.items():
                for where in (0, 1, 2):
                    for old in (False, True):
                        case = [fmt, name, where, old]
                        ctx.state(case)
                        ctx.trans()
                        with ctx.case(case):
                            what = f"{fmt} write with bad {name} at position {where}"
                            w = Write(f"{fmt} append two" if old else f"{fmt} new", tmp)
                            w.reset()
                            patches = list(w.new)

                            if make is None:
                                def gen():
                                    yield from patches[:where]
                                    raise ValueError("no more")

                                op = (lambda: dc.write(dc.spool(list(gen())), w.path, fmt)) if fmt == "pickle" else (lambda: dc.io.core.FiberIO.manager.get_fiberio("DASDAE").write(gen(), w.path))
                            else:
                                try:
                                    patches.insert(where, make())
                                except Exception:
                                    ctx.outcome("can't be made")
                                    continue
                                op = lambda: dc.write(dc.spool(patches), w.path, fmt)  # noqa: E731
                            how, msg = attempt(op)
                            released(tmp, what)
                            expect(how == "error", f"{what}: no error")
                            check_written(w, f"{what} ({msg})")
                            w.write()
                            check_retried(w, {}, f"{what}: good patches written afterwards")
    finally:
        shutil.rmtree(tmp)


def run_disk(part, n, tier, ctx):
    """A pickle file which can't grow beyond a limit."""
    tmp = Path(tempfile.mkdtemp(prefix="c25_", dir=SCRATCH))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        for name in ("pickle append", "pickle new"):
            w = Write(name, tmp)
            w.reset()
            start = w.path.stat().st_size if w.old else 0
            w.write()
            final, end = parts(w), w.path.stat().st_size
            sizes = [k for k in range(start, end) if tier == "thorough" or min(k - start, end - 1 - k) < 40 or k % 16 == 0]
            for size in sizes[part::n]:
                case = [name, size - start]
                ctx.state(case)
                ctx.trans()
                with ctx.case(case):
                    w.reset()
                    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
                    try:
                        how, _ = attempt(w.write)
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                    what = f"{name}, disk full after {size - start} of {end - start} bytes"
                    released(tmp, what)
                    expect(how == "error", f"{what}: no error was raised")
                    got = content(w.path) if w.old else []
                    expect(len(match(got, w.merged, what)) == len(w.merged) - len(w.old) or not w.old, f"{what}: stored patches", len(got))
                    w.write()
                    check_retried(w, final, f"{what}: written again")
    finally:
        shutil.rmtree(tmp)


# ---------------------------------------------------------------- directories
class Dir:
    """A directory with files, some of them indexed."""

    def __init__(self, d):
        import dascore as dc

        self.base, self.dir, self.side = Path(d) / "base", Path(d) / "work", Path(d) / "maps"
        self.base.mkdir()
        self.first = [P(1), P(2, shift=100)]
        self.second = [P(3, shift=50, extra="assoc"), P(4, shift=5, tag="k1")]
        dc.write(self.first[0], self.base / "a.h5", "dasdae")
        (self.base / "sub").mkdir()
        dc.write(self.first[1], self.base / "sub" / "b.h5", "dasdae")
        dc.spool(self.base).update(progress=None)
        time.sleep(0.02)
        self.indexed = self.base.with_name("indexed")
        shutil.copytree(self.base, self.indexed)
        os.remove(self.base / ".dascore_index.h5")
        self.grown = self.base.with_name("grown")
        shutil.copytree(self.indexed, self.grown)
        dc.write(self.second[0], self.grown / "c.h5", "dasdae")
        dc.write(self.second[1], self.grown / "a.h5", "dasdae")  # appended
        now = time.time() + 5
        for n in ("a.h5", "c.h5"):
            os.utime(self.grown / n, (now, now))

    def reset(self, which):
        for x in (self.dir, self.side):
            if x.exists():
                shutil.rmtree(x)
        self.map = _keep_map(self)
        shutil.copytree(getattr(self, which), self.dir)


def _open(d):
    import dascore as dc

    return dc.spool(d.dir)


def _outside(d):
    """The index lives elsewhere."""
    import dascore as dc
    from dascore.clients.dirspool import DirectorySpool

    del dc
    d.side.mkdir(exist_ok=True)
    return DirectorySpool(d.dir, index_path=d.side / "index.h5")


def _keep_map(d):
    """The locations of other indices are kept."""
    from dascore.io.indexer import DirectoryIndexer, _get_index_map

    path = d.side / "map.json"
    DirectoryIndexer.index_map_path = path
    _get_index_map.cache_clear()
    d.side.mkdir(exist_ok=True)
    path.write_text('{"/somewhere": "/else/index.h5"}')
    return path


INDEX = {  # name -> (directory, operation on it)
    "first update": ("base", lambda d: list(_open(d).update(progress=None))),
    "later update": ("grown", lambda d: list(_open(d).update(progress=None))),
    "contents": ("indexed", lambda d: len(_open(d).get_contents())),
    "implicit": ("base", lambda d: len(_open(d).get_contents())),
    "select": ("indexed", lambda d: list(_open(d).select(time=(io.T0, io.T0 + 2 * io.SEC)))),
    "scan": ("grown", lambda d: len(__import__("dascore").scan(d.dir, progress=None))),
    "elsewhere": ("base", lambda d: list(_outside(d).update(progress=None))),
    "pieces": ("indexed", lambda d: [x.shape for x in _open(d).chunk(time=2)]),
}


def run_index(name, part, n, tier, ctx):
    tmp = Path(tempfile.mkdtemp(prefix="c25_", dir=SCRATCH))
    real_sleep, time.sleep = time.sleep, lambda s: None
    try:
        d = Dir(tmp)
        which, op = INDEX[name]
        want = [*d.first, *(d.second if which == "grown" else [])]
        for _ in range(2):
            d.reset(which)
            op(d)
        d.reset(which)
        with faults.Faults() as f:
            op(d)
        released(tmp, name)
        files = files_of(d.dir)
        points = faults.pick(f.sites, 1) if tier == "quick" else range(len(f.sites))
        cases = [(k, e) for e in (Injected, KeyboardInterrupt) for k in points]
        if tier == "quick":  # interrupts at every fourth one
            cases = cases[: len(points)] + cases[len(points) :: 4]
        for k, error in cases[part::n]:
            case = [name, k, error.__name__]
            ctx.state(case)
            ctx.trans()
            with ctx.case(case):
                what = f"directory {name}, {error.__name__} at {f.sites[k][1]} (line {f.sites[k][0][1]} of {Path(f.sites[k][0][0]).name})"
                d.reset(which)
                with faults.Faults(k, error) as g:
                    how, _ = attempt(lambda: op(d))
                expect(g.hit is not None, f"{what}: not reached")
                ctx.outcome("failure raised" if how == "error" else "failure handled")
                del _
                released(tmp, what)
                expect(files_of(d.dir) == files, f"{what}: data files changed")
                maps = json.loads(d.map.read_text()) if d.map.exists() else {}
                expect(maps.get("/somewhere") == "/else/index.h5", f"{what}: index map", maps)
                # what is there without an update is not wrong
                sp = _open(d)
                part_ = list(sp)
                match(part_, want, f"{what}: spool without an update")
                sp = _open(d).update(progress=None)
                if how == "ok" and len(sp) < len(want):
                    # Files which can't be looked at are left out until they change.
                    now = time.time() + 60
                    for p in files:
                        os.utime(p, (now, now))
                    sp = sp.update(progress=None)
                got = list(sp)
                expect(len(sp) == len(want) and not match(got, want, what), f"{what}: updated afterwards", len(sp), len(want))
                released(tmp, f"{what}: updated afterwards")
    finally:
        time.sleep = real_sleep
        shutil.rmtree(tmp)


# ---------------------------------------------------------------- in place changes
def run_inplace(i, tier, ctx):
    """Changing data which was read doesn't change the file."""
    import dascore as dc

    tmp = Path(tempfile.mkdtemp(prefix="c25_", dir=SCRATCH))
    lab = F.label(i)
    try:
        path, _ = F.build(i, tmp)
        ways = {"read": lambda: list(dc.read(path)), "spool": lambda: list(dc.spool(path)), "indexed": lambda: list(dc.spool(tmp).update(progress=None))}
        for name, op in ways.items():
            case = [lab, "in place", name]
            ctx.state(case)
            ctx.trans()
            with ctx.case(case):
                what = f"{lab}, {name}"
                base = files_of(path)
                want = [np.array(p.data) for p in op()]
                patches = op()
                for p in patches:
                    for arr in (p.data, *(np.asarray(c.values) for c in p.coords.coord_map.values())):
                        if arr.size and arr.dtype.kind in "fiu":
                            try:
                                arr[...] = 77
                            except ValueError:  # read only
                                ctx.outcome("read only")
                del p, patches, arr
                expect(files_of(path) == base, f"{what}: changing a patch in memory changed the file")
                got = op()
                expect(len(got) == len(want) and all(np.array_equal(np.asarray(a.data), b, equal_nan=b.dtype.kind in "fc") for a, b in zip(got, want)), f"{what}: read again")
    finally:
        shutil.rmtree(tmp)


def run(shard, ctx):
    gc.collect()
    gc.freeze()
    try:
        {"read": run_read, "write": run_write, "index": run_index, "natural": run_natural, "disk": run_disk, "inplace": run_inplace}[shard[0]](*shard[1:], ctx.tier, ctx)
    finally:
        gc.unfreeze()
    _ = Mismatch
