"""C26: concurrent use of shared objects gives the single-threaded result."""
from __future__ import annotations

import dis
import functools
import os
import pickle
import shutil
import sys
import tempfile
import warnings
from pathlib import Path

import numpy as np
import pandas as pd

from mc import formats as F
from mc import iopatch as io
from mc import sched
from mc.core import SCRATCH, expect

LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of the real code under a controlled scheduler: two threads of which one runs at a time, switched at executed lines of the library (sys.monitoring), for every ordered pair of operations on every kind of shared object in a fresh (nothing cached) state; results, exceptions and a later repetition are compared with single-threaded use"
ASSUMPTIONS = [
    "threads switch between lines of the library's own Python code, not inside NumPy, pandas, pint or HDF5",
    "objects are shared for reading: updating one directory's index from two threads at once and changing warning filters are out of scope",
]
BOUNDS = {
    "quick": "two threads, one preemption, at the first occurrence of every line of the first thread which could use something shared; 8 kinds of coordinates, 3 patches, 5 kinds of spools and their pieces, the plugin manager, format detection, reading and writing, units; every ordered pair of operations (all pairs for small objects, 1 to 5 second operations for larger ones)",
    "thorough": "all ordered pairs of 4 to 14 operations, one preemption at the first 4 and last 3 occurrences of every such line, two preemptions at every pair of first occurrences in the plugin manager, caches, spools, units and index code",
}


# ---------------------------------------------------------------- comparing results
def freeze(x):
    import dascore as dc

    if isinstance(x, dc.Patch):
        return ("patch", tuple(x.dims), freeze(np.asarray(x.data)), {k: (tuple(x.coords.dim_map[k]), freeze(c)) for k, c in sorted(x.coords.coord_map.items())}, freeze({k: v for k, v in io.attr_dict(x.attrs).items()}))
    if isinstance(x, dc.BaseSpool):
        return ("spool", [freeze(p) for p in x])
    if type(x).__name__.startswith("Coord") and hasattr(x, "coord_map"):
        return ("cm", tuple(x.dims), {k: (tuple(x.dim_map[k]), freeze(c)) for k, c in sorted(x.coord_map.items())})
    if type(x).__name__.startswith("Coord") and hasattr(x, "values"):
        return ("coord", type(x).__name__, freeze(np.asarray(x.values)), str(x.units), str(x.step))
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tolist() if x.dtype.kind == "O" else x.tobytes())
    if isinstance(x, pd.DataFrame):
        return ("frame", sorted(x.columns), [sorted((k, str(v)) for k, v in r.items() if k != "patch") for r in x.to_dict("records")])
    if isinstance(x, dict):
        return {str(k): freeze(v) for k, v in x.items()}
    if isinstance(x, list | tuple):
        return [freeze(v) for v in x]
    if isinstance(x, set | frozenset):
        return sorted(str(freeze(v)) for v in x)
    return f"{type(x).__name__}:{x}"


def digest(x):
    return str(freeze(x))


# ---------------------------------------------------------------- shared objects
class Env:
    """Files the scenarios use."""

    def __init__(self):
        import dascore as dc

        self.tmp = Path(tempfile.mkdtemp(prefix="c26_", dir=SCRATCH))
        self.dir = self.tmp / "dir"
        self.dir.mkdir()
        for k in range(2):
            dc.write(patch(k), self.dir / f"f{k}.h5", "dasdae")
        dc.spool(self.dir).update(progress=None)
        self.file = self.tmp / "file.h5"
        dc.write(dc.spool([patch(k) for k in range(3)]), self.file, "dasdae")
        self.terra = F.terra15(self.tmp)[0]
        self.prodml = F.prodml(self.tmp)[0]

    def close(self):
        shutil.rmtree(self.tmp)


def patch(k=0, **kw):
    p = io.make(time=kw.get("time", "even"), extra=kw.get("extra", "assoc"), attrs="some")
    p = p.update(data=p.data + 100 * k)
    return p.update_coords(time=p.get_array("time") + k * len(p.get_array("time")) * io.SEC).update_attrs(tag=f"k{k}")


def coord(kind):
    from dascore.core.coords import get_coord

    t = io.T0 + np.arange(6) * io.SEC
    return {
        "range": lambda: get_coord(data=t, units="s"),
        "float range": lambda: get_coord(start=0.5, step=0.25, stop=2.0, units="m"),
        "reverse": lambda: get_coord(data=t[::-1].copy()),
        "monotonic": lambda: get_coord(data=np.array([0.0, 1, 3, 7, 8]), units="m"),
        "falling": lambda: get_coord(data=np.array([9.0, 5, 3, 2, 0]), units="m"),
        "array": lambda: get_coord(data=np.array([3.0, 1, 7, 5, 2]), units="m"),
        "string": lambda: get_coord(data=np.array(["b", "a", "d", "c"])),
        "multi": lambda: get_coord(data=np.arange(6.0).reshape(2, 3)),
    }[kind]()


def v(c, k):
    return c.values[k]


COORD_OPS = {
    "values": lambda c: c.values, "limits": lambda c: (c.min(), c.max()) if c.values.dtype.kind != "U" else c.step, "range": lambda c: c.coord_range() if c.evenly_sampled else c.step, "flags": lambda c: (c.sorted, c.reverse_sorted, c.evenly_sampled, c.degenerate, len(c), c.shape, str(c.dtype)),
    "select": lambda c: c.select((sorted(np.asarray(c.values).ravel())[1], sorted(np.asarray(c.values).ravel())[3])), "index": lambda c: c.get_next_index(v(c, 1)) if c.sorted else None, "getitem": lambda c: c[1:3], "eq": lambda c: c == c.new(),
    "summary": lambda c: c.to_summary().model_dump(), "sort": lambda c: c.sort(), "units": lambda c: c.convert_units("km") if str(c.units).endswith("m") else c.units, "str": lambda c: (str(c), repr(c)), "hash": lambda c: c.size, "snap": lambda c: c.snap() if c.values.dtype.kind != "U" and c.ndim == 1 else 0,
}
PATCH_OPS = {
    "attrs": lambda p: p.attrs, "coords": lambda p: p.coords, "select": lambda p: p.select(time=(io.T0, io.T0 + 2 * io.SEC)), "summary": lambda p: str(p), "equal": lambda p: p == p.new(), "transpose": lambda p: p.transpose(), "mean": lambda p: p.mean("time"),
    "filter": lambda p: p.pass_filter(distance=(None, 0.02), corners=1) if False else p.detrend("time"), "arith": lambda p: p * 2 + p, "flat": lambda p: p.attrs.flat_dump(), "size": lambda p: (p.size, p.shape, p.ndim, p.channel_count if hasattr(p, "channel_count") else 0), "dft": lambda p: p.dft("time"), "units": lambda p: p.convert_units(time="ms"), "name": lambda p: p.get_patch_name(),
}
SPOOL_OPS = {
    "len": len, "first": lambda s: s[0], "last": lambda s: s[-1], "iterate": list, "contents": lambda s: s.get_contents(), "select": lambda s: list(s.select(time=(io.T0 + io.SEC, io.T0 + 6 * io.SEC))), "tag": lambda s: list(s.select(tag="k1")),
    "chunk": lambda s: list(s.chunk(time=3)), "merge": lambda s: list(s.chunk(time=None)), "slice": lambda s: list(s[1:3]), "split": lambda s: [list(x) for x in s.split(size=2)], "str": lambda s: str(s), "sort": lambda s: list(s.sort("time")), "equal": lambda s: s == s[:],
}
PIECES = (0, 1)
MAP_OPS = {f"piece {k}": (lambda s, k=k: list(s[k])) for k in range(len(PIECES))}
MAP_OPS |= {"mapped": lambda s: s[0].map(lambda p: float(p.data.sum()), progress=False), "contents": lambda s: [x.get_contents() for x in s], "whole": lambda s: list(s[-1])}
MANAGER_OPS = {
    "terra15 6": lambda m: name(m.get_fiberio(format="TERRA15", version="6")), "terra15": lambda m: name(m.get_fiberio(format="terra15")), "dasdae": lambda m: name(m.get_fiberio(format="DASDAE", version="1")),
    "load": lambda m: (m.load_plugins(), sorted(m._format_version)[:0], [x for x in m.unloaded_formats if x != "VPMCDUMMY"])[1:], "all": lambda m: names(m.yield_fiberio()), "files": lambda m: names(m.yield_fiberio(input_type="file")),
    "directories": lambda m: names(m.yield_fiberio(input_type="directory")), "extension": lambda m: [names(m.yield_fiberio(extension="hdf5", input_type="file")), name(next(iter(m.yield_fiberio(extension="sgy", input_type="file"))))],
    "versions": lambda m: list(map(name, m.yield_fiberio(format="SEGY"))), "known": lambda m: sorted(m.known_formats - {"VPMCDUMMY"}), "register": lambda m: (m.register_fiberio(DUMMY[0]), name(m.get_fiberio(format="VPMCDUMMY")))[1],
    "unknown": lambda m: error(lambda: m.get_fiberio(format="NOTAFORMAT")), "unknown version": lambda m: error(lambda: m.get_fiberio(format="PRODML", version="77")),
}
FORMAT_OPS = {
    "format terra15": lambda e: dc_().get_format(e.terra), "format prodml": lambda e: dc_().get_format(e.prodml), "read dasdae": lambda e: list(dc_().read(e.file)), "scan": lambda e: dc_().scan_to_df(e.terra, progress=None).drop(columns="path"),
    "read as": lambda e: list(dc_().read(e.prodml, file_format="PRODML", file_version="2.0")), "write": lambda e: write(e), "spool": lambda e: list(dc_().spool(e.file)),
}
UNIT_OPS = {
    "product": lambda e: str(dc_().get_quantity("km/s") * dc_().get_quantity("10 s")), "convert": lambda e: units().convert_units(np.array([1.0, 2.0]), to_units="ft", from_units="m"), "unit": lambda e: str(dc_().get_unit("m/s^2")),
    "compare": lambda e: dc_().get_quantity("1000 m") == dc_().get_quantity("km"), "factor": lambda e: units().get_factor_and_unit("10 km", simplify=True), "celsius": lambda e: units().convert_units(10.0, to_units="degF", from_units="degC"),
    "string": lambda e: units().get_quantity_str("2 m/s"), "bad": lambda e: error(lambda: dc_().get_quantity("notaunit")), "patch": lambda e: PRE["patch"].convert_units("mm/s"),
}
PROC_OPS = {
    "rolling": lambda p: p.rolling(time=3).mean(), "rolling pandas": lambda p: p.rolling(time=3, engine="numpy").median() if False else p.rolling(time=3).median(), "median": lambda p: p.median_filter(time=3), "hann": lambda p: p.taper(time=0.3), "decimate": lambda p: p.decimate(time=2, filter_type=None),
    "interp": lambda p: p.interpolate(distance=np.array([1.0, 5.0])), "stalta": lambda p: p.abs(), "aggregate": lambda p: p.aggregate("time", "mean"),
}
DUMMY, PRE = [], {}


def dc_():
    import dascore as dc

    return dc


def units():
    import dascore.units as u

    return u


def name(f):
    return f"{f.name} {f.version}"


def names(fs):
    return sorted(name(f) for f in fs if f.name != "VPMCDUMMY")


def error(func):
    try:
        return f"no error: {func()}"
    except Exception as e:
        return type(e).__name__


def write(e):
    path = e.tmp / f"w{os.getpid()}_{id(object())}_{np.random.default_rng().integers(1 << 60)}.h5"
    dc_().write(patch(7), path, "dasdae")
    out = list(dc_().read(path))
    path.unlink()
    return out


def fresh_manager(env):
    from dascore.io.core import FiberIO, _FiberIOManager

    if not DUMMY:
        class VPMCDummy(FiberIO):
            name = "VPMCDUMMY"
            version = "1"
            preferred_extensions = ("vpmc",)

        DUMMY.append(FiberIO.manager.get_fiberio(format="VPMCDUMMY"))
    return _FiberIOManager("dascore.fiber_io")


def with_manager(env):
    """Everything uses a plugin manager which hasn't loaded anything."""
    from dascore.io.core import FiberIO

    FiberIO.manager = env.manager = fresh_manager(env)
    return env


def fresh_units(env):
    u = units()
    for n in dir(u):
        f = getattr(u, n)
        if n != "get_registry" and hasattr(f, "cache_clear"):
            f.cache_clear()
    PRE["patch"] = patch(1)
    return env


def pieces(spool):
    return [*spool.split(count=2), spool]


SCENARIOS = {f"coord {k}": (lambda e, k=k: coord(k), COORD_OPS) for k in ("range", "float range", "reverse", "monotonic", "falling", "array", "string", "multi")}
SCENARIOS |= {
    "patch": (lambda e: patch(1), PATCH_OPS),
    "uneven patch": (lambda e: patch(1, time="uneven"), {k: f for k, f in PATCH_OPS.items() if k not in ("filter", "dft")}),
    "patch processing": (lambda e: patch(1), PROC_OPS),
    "memory spool": (lambda e: dc_().spool([patch(k) for k in range(3)]), SPOOL_OPS),
    "chunked spool": (lambda e: dc_().spool([patch(k) for k in range(3)]).chunk(time=None), SPOOL_OPS),
    "file spool": (lambda e: dc_().spool(e.file), SPOOL_OPS),
    "directory spool": (lambda e: dc_().spool(e.dir), {**SPOOL_OPS, "indexer": lambda s: s.indexer(time=(io.T0, io.T0 + 5 * io.SEC)).sort_values("tag")}),
    "chunked directory": (lambda e: dc_().spool(e.dir).chunk(time=3), SPOOL_OPS),
    "pieces of a memory spool": (lambda e: pieces(dc_().spool([patch(k) for k in range(4)])), MAP_OPS),
    "pieces of a directory": (lambda e: pieces(dc_().spool(e.dir)), MAP_OPS),
    "pieces of a chunked spool": (lambda e: pieces(dc_().spool(e.dir).chunk(time=3)), MAP_OPS),
    "plugin manager": (fresh_manager, MANAGER_OPS),
    "files": (with_manager, FORMAT_OPS),
    "units": (fresh_units, UNIT_OPS),
}
# The operations of the first and second thread in the quick tier, if not all (and itself).
QUICK = {
    "patch": ([k for k in PATCH_OPS if k != "dft"], ("select", "summary")), "uneven patch": (("select", "summary", "equal", "units", "attrs"), ("select",)), "patch processing": (PROC_OPS, ("rolling", "interp")),
    "memory spool": (("first", "contents", "tag", "merge", "str", "sort", "equal"), ("iterate",)), "chunked spool": (("first", "contents", "tag"), ("iterate",)),
    "file spool": (("first", "contents", "equal"), ("last",)), "directory spool": (("len", "contents", "select", "indexer", "equal"), ("iterate",)), "chunked directory": (("first", "contents", "select"), ("iterate",)),
    "pieces of a memory spool": (MAP_OPS, ("piece 1", "whole")), "pieces of a directory": (("piece 0", "mapped"), ("piece 1", "whole")), "pieces of a chunked spool": (("piece 0",), ("piece 1",)), "files": (("format terra15", "format prodml", "read as", "scan", "read dasdae"), ("format terra15",)),
} | {f"coord {k}": (COORD_OPS, ("values", "limits", "select", "eq")) for k in ("float range", "reverse", "falling", "string", "multi")}
AGAIN_B = {"file spool", "directory spool", "chunked directory", "memory spool", "chunked spool", "pieces of a directory", "pieces of a chunked spool", "files"}
TWO = {"plugin manager": ("io/core.py", "utils/misc.py"), "memory spool": ("core/spool.py", "utils/misc.py"), "directory spool": ("core/spool.py", "utils/misc.py", "clients", "io/indexer.py"), "coord array": ("core/coords.py", "utils/misc.py"),
       "coord range": ("core/coords.py", "utils/misc.py"), "pieces of a directory": ("core/spool.py", "utils/misc.py", "clients"), "units": ("units.py",)}


def shards(tier):
    out = []
    for s, (_, ops) in SCENARIOS.items():
        out += [(s, a, 1) for a in (QUICK.get(s, [ops])[0] if tier == "quick" else ops)]
        if tier == "thorough" and s in TWO:
            out += [(s, a, 2) for a in ops]
    return sorted(out, key=lambda x: "directory" not in x[0] and "files" not in x[0])


# ---------------------------------------------------------------- exploration
def spots(trace, per):
    """Positions (counted from one) of the first and last occurrences of every line."""
    where = {}
    for k, line in enumerate(trace, 1):
        if line is None:
            continue
        where.setdefault(line, []).append(k)
    out = set()
    for ks in where.values():
        out |= set(ks[:per]) | set(ks[len(ks) - per + 1 :])
    return sorted(out)


class Tracer(sched.Runner):
    """One thread alone, noting the lines."""

    root = None

    def __init__(self, func, only=None):
        super().__init__([func], [], only)
        self.trace = []

    def on_line(self, code, line):
        name_ = sched.ours(code, self.only)
        if not name_:
            return
        if sched.threading.get_ident() in self.ident:
            self.trace.append((name_, line) if touches(sys._getframe(2), self.root) else None)


CONTAINERS = (dict, list, set, bytearray, np.ndarray, pd.DataFrame, pd.Series)


def reachable(root):
    """The identities of all mutable objects which belong to root."""
    seen, todo = set(), [root]
    while todo:
        x = todo.pop()
        mine = type(x).__module__.split(".")[0] in ("dascore", "mc") or isinstance(x, CONTAINERS)
        if isinstance(x, tuple | frozenset):
            todo.extend(x)
            continue
        if not mine or id(x) in seen or isinstance(x, type):
            continue
        seen.add(id(x))
        if isinstance(x, dict):
            todo.extend(x.values())
        elif isinstance(x, list | set):
            todo.extend(x)
        elif isinstance(x, pd.DataFrame):
            if "patch" in x.columns:
                todo.extend(x["patch"])
        elif not isinstance(x, CONTAINERS):
            todo.extend(getattr(x, "__dict__", {}).values())
            todo.extend((getattr(x, "__pydantic_private__", None) or {}).values())
    return seen


def touches(frame, root):
    """
    True if a line of this frame could use something shared.

    Either a variable refers to (a part of) the shared object or one of the
    names used is a container of the module or of a class.
    """
    glob, loc = frame.f_globals, frame.f_locals
    shared = reachable(root)
    for x in loc.values():
        if id(x) in shared or isinstance(x, tuple | list) and any(id(y) in shared for y in x) or isinstance(x, dict) and any(id(y) in shared for y in x.values()):
            return True
    names = frame.f_code.co_names
    me = loc.get("self", loc.get("cls"))
    classes = me.__mro__ if isinstance(me, type) else type(me).__mro__ if me is not None else ()
    for n in names:
        if isinstance(glob.get(n), CONTAINERS) and not n.isupper():
            return True
        if any(isinstance(vars(c).get(n), CONTAINERS) for c in classes if c.__module__.startswith("dascore")):
            return True
    return any(i.opname == "STORE_GLOBAL" for i in instructions(frame.f_code))


@functools.cache
def instructions(code):
    return tuple(dis.get_instructions(code))


def quiet(func, *args):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return func(*args)


def attempt(op, x):
    """Some operations aren't defined for all objects."""
    try:
        return op(x)
    except (TypeError, IndexError, ValueError) as e:
        return f"raises {type(e).__name__}"


def alone(make, op, env):
    return digest(quiet(attempt, op, make(env)))


def run(shard, ctx):
    scen, a, depth = shard
    from dascore.io.core import FiberIO

    make, ops = SCENARIOS[scen]
    warnings.simplefilter("ignore")
    fresh_manager(None).load_plugins()
    manager = FiberIO.manager
    env = Env()
    only = TWO[scen] if depth == 2 else None
    per = 1 if ctx.tier == "quick" or depth == 2 else 4
    try:
        for op in ops.values():  # everything is imported and compiled
            quiet(attempt, op, make(env))
        want = {}
        for k, op in ops.items():
            want[k] = alone(make, op, env)
            expect(alone(make, op, env) == want[k], f"{scen}: {k} alone isn't deterministic")
        shared = make(env)
        t = Tracer(lambda: attempt(ops[a], shared), only)
        t.root = shared
        t.run()
        first = spots(t.trace, per)
        ctx.count("points", len(first))
        second = [b for b in ops if ctx.tier == "thorough" or b in QUICK.get(scen, [0, ops])[1] or b == a and scen not in AGAIN_B]
        for b in second:
            for k in first:
                if depth == 1:
                    one(ctx, scen, make, ops, want, env, a, b, [k], only, t.trace)
                    continue
                # The second thread's lines after this first piece.
                shared = make(env)
                r = Second([lambda: attempt(ops[a], shared), lambda: attempt(ops[b], shared)], [k], only)
                r.run()
                for k2 in spots(r.trace, 1):
                    one(ctx, scen, make, ops, want, env, a, b, [k, k2], only, t.trace)
    finally:
        FiberIO.manager = manager
        env.close()


class Second(sched.Runner):
    """Notes the lines of the second thread."""

    def __init__(self, *args):
        super().__init__(*args)
        self.trace = []

    def on_line(self, code, line):
        got = super().on_line(code, line)
        if got is None and self.ident.get(sched.threading.get_ident()) == 1 and not self.done[0]:
            self.trace.append((sched.ours(code), line))
        return got


def one(ctx, scen, make, ops, want, env, a, b, stops, only, trace):
    case = [scen, a, b, stops]
    ctx.state(case)
    ctx.trans()
    with ctx.case(case):
        shared = make(env)
        r = sched.Runner([lambda: attempt(ops[a], shared), lambda: attempt(ops[b], shared)], stops, only)
        results = r.run()
        ctx.count("switches", len(r.where))
        ctx.outcome("waited for a lock" if r.blocked else "ran")
        at = f"{scen}: {a} stopped at {r.where} while {b} runs"
        for n, (how, got) in zip((a, b), results):
            expect(how == "ok", f"{at}: {n}", got)
            expect((got := digest(got)) == want[n], f"{at}: result of {n}", got[:1500], "instead of", want[n][:1500])
        for n in {a, b} if scen not in AGAIN_B else [b]:
            got = digest(quiet(attempt, ops[n], shared))
            expect(got == want[n], f"{at}: {n} done again afterwards", got[:1500], "instead of", want[n][:1500])
    _ = pickle
