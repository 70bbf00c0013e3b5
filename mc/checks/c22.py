"""C22: a directory index converges to the files actually present."""
from __future__ import annotations

import copy
import functools
import os
import shutil
import sys
import tempfile
import time
from pathlib import Path

import numpy as np
import pandas as pd

from mc import formats as F
from mc import iopatch as io
from mc.core import SCRATCH, Skip, expect

LEVEL = "model_checking"
TECHNIQUE = "explicit-state breadth-first search over histories of file events (add, append, replace, touch, delete + index removal, files arriving during an update) and index actions (update of a long-lived spool, with filled caches, after another spool's update, re-open, crash or interrupt at every step of an update) on a real directory with snapshot/restore, against a model which maps files to the patches in them"
ASSUMPTIONS = ["files which are deleted, or changed without their modification time moving on, need the index to be removed first (documented)", "a crash is the process ending (os._exit) with HDF5's buffers lost, not lost kernel buffers"]
BOUNDS = {
    "quick": "13 file events x 7 index actions: all histories of 2 rounds (of 3 for a core of 6 events x 4 actions); a crash at every line of the index code run by an update, from 2 kinds of states; 6 kinds of files arriving, or an interrupt, while an update scans, x 2 actions before and 3 after",
    "thorough": "histories of 3 rounds with all events and 4 with the core; crashes at every line of the index code and every function entry in pandas' and PyTables' storage layers, from 8 kinds of states",
}


# ---------------------------------------------------------------- contents
def alphabet():
    def p(k, **kw):
        base = io.make(time=kw.pop("time", "even"), extra=kw.pop("extra", "none"), attrs="some")
        base = base.update(data=base.data + 100 * k)
        shift = kw.pop("shift", 0)
        if shift:
            base = base.update_coords(time=base.get_array("time") + shift * io.SEC)
        return base.update_attrs(tag=f"k{k}", **kw)

    return {
        "one": p(1), "two": p(2, shift=100), "same": p(3), "late": p(4, shift=1000, station="other"),
        "b1": p(5, shift=50, extra="assoc"), "b2": p(6, shift=4), "no": p(7).rename_coords(time="money"),
        "pk": p(8, shift=3), "far": p(9, shift=5000), "old": p(10, time="old"), "long": p(11, shift=-500, data_type="x" * 50),
    }


CONTENTS = {  # name of a file's content -> its patches
    "a1": ["one"], "aa": ["one", "two"], "ar": ["late"], "as": ["same"], "b2": ["b1", "b2"], "n": ["no"], "p": ["pk"], "far": ["far"], "old": ["old"], "long": ["long"],
    "x": [], "xh": [], "d1": ["raw0"], "d2": ["raw0", "raw1"], "trig": [],
}
A, B, N, P, X, XH, D, L, O = "a.h5", "sub/b.h5", "n.h5", "p.pkl", "notes.txt", "foreign.h5", "raw", "s" * 90 + "/" + "t" * 50 + ".h5", "old/o.h5"


def build_store(tmp):
    """Write each content once; histories copy them."""
    import h5py

    import dascore as dc

    alpha = alphabet()
    store = tmp / "store"
    store.mkdir()
    for name, patches in CONTENTS.items():
        if not patches or name.startswith("d"):
            continue
        path = store / name
        for q in patches:  # one write per patch: the second one is an append
            dc.write(alpha[q], path, "pickle" if name == "p" else "dasdae")
    (store / "x").write_text("just some notes")
    (store / "trig").write_text("VPMC trigger")
    with h5py.File(store / "xh", "w") as fi:
        fi["other"] = np.arange(3)
    path, _ = F.xml_binary(store, files=2)
    raws = sorted(path.glob("*.raw"))
    patches = sorted(dc.read(path), key=lambda q: q.get_coord("time").min())
    for i, q in enumerate(patches):
        alpha[f"raw{i}"] = q
    shutil.copytree(path, store / "d2")
    shutil.copytree(path, store / "d1")
    os.remove(store / "d1" / raws[1].name)
    shutil.rmtree(path)
    return store, alpha


# ---------------------------------------------------------------- the world
class World:
    """A directory, the model of it and a long-lived spool."""

    def __init__(self, tmp, store, alpha):
        self.dir, self.store, self.alpha = tmp / "work", store, alpha
        self.files, self.live, self.flags = {}, None, ()
        self.dirty = False
        if self.dir.exists():
            shutil.rmtree(self.dir)
        self.dir.mkdir()

    def snapshot(self, where):
        if where.exists():
            shutil.rmtree(where)
        shutil.copytree(self.dir, where)
        return (where, dict(self.files), copy.deepcopy(self.live), self.flags)

    def restore(self, snap):
        where, files, live, self.flags = snap
        shutil.rmtree(self.dir)
        shutil.copytree(where, self.dir)
        self.files, self.live = dict(files), copy.deepcopy(live)

    def put(self, rel, content):
        src, dst = self.store / content, self.dir / rel
        dst.parent.mkdir(parents=True, exist_ok=True)
        if src.is_dir():
            dst.mkdir(exist_ok=True)
            for x in sorted(src.iterdir()):
                if not (dst / x.name).exists():
                    shutil.copyfile(x, dst / x.name)
            os.utime(dst)
        else:
            shutil.copyfile(src, dst)
        self.files[rel] = content

    @property
    def index(self):
        return self.dir / ".dascore_index.h5"

    def expected(self):
        """[(path, patch name)] which an updated spool has."""
        return sorted((rel, q) for rel, c in self.files.items() for q in CONTENTS[c])


# ---------------------------------------------------------------- events
def ev_put(rel, content, needs=None, absent=True):
    def do(w):
        if absent and rel in w.files:
            raise Skip()
        if needs is not None and w.files.get(rel) != needs:
            raise Skip()
        if w.files.get(rel) == content:
            raise Skip()
        w.put(rel, content)

    return do


def ev_future(w):
    if A not in w.files or "future" in w.flags:
        raise Skip()
    t = time.time() + 3600
    os.utime(w.dir / A, (t, t))
    w.flags = (*w.flags, "future")


def ev_delete(w):
    """The documented procedure: remove files and the index."""
    if A not in w.files:
        raise Skip()
    (w.dir / A).unlink()
    del w.files[A]
    w.flags = tuple(x for x in w.flags if x != "future")
    if w.index.exists():
        w.index.unlink()


def ev_rewrite(w):
    """The same content again, eg a backup was restored."""
    if A not in w.files:
        raise Skip()
    w.put(A, w.files[A])


EVENTS = {
    "add a": ev_put(A, "a1"), "append a": ev_put(A, "aa", "a1", False), "replace a": ev_put(A, "ar", None, False),
    "retag a": ev_put(A, "as", "a1", False), "add b": ev_put(B, "b2"), "no time": ev_put(N, "n"), "pickle": ev_put(P, "p"),
    "foreign": lambda w: (ev_put(X, "x")(w), w.put(XH, "xh")), "raw": ev_put(D, "d1"), "raw more": ev_put(D, "d2", "d1", False),
    "long": ev_put(L, "long"), "old": ev_put(O, "old"), "future": ev_future, "delete": ev_delete, "rewrite": ev_rewrite, "nothing": lambda w: None,
}
CORE_EVENTS = ["add a", "append a", "replace a", "add b", "no time", "delete"]


# ---------------------------------------------------------------- actions
def fresh(w):
    import dascore as dc

    return dc.spool(w.dir)


def act_live(w):
    w.live = (w.live if w.live is not None else fresh(w)).update(progress=None)


def act_query(w):
    """Caches are filled before the update."""
    sp = w.live if w.live is not None else fresh(w)
    if w.live is not None:
        sp.get_contents()
        t = io.T0
        sp.select(time=(t, t + 60 * io.SEC)).get_contents()
        sp.indexer()
        sp.indexer(time=(None, t + 10 * io.SEC))
    w.live = sp.update(progress=None)


def act_new(w):
    w.live = fresh(w).update(progress=None)


def act_other(w):
    """Another spool does the update first."""
    sp = w.live if w.live is not None else fresh(w)
    if w.live is not None:
        sp.get_contents(), sp.indexer()
    fresh(w).update(progress=None)
    w.live = sp.update(progress=None)


def act_paths(w):
    """One file is indexed on its own before all the others."""
    sp = w.live if w.live is not None else fresh(w)
    if A in w.files:
        sp.indexer.update(paths=[A], progress=None)
    w.live = sp.update(progress=None)


def act_no_index(w):
    """The index is removed; the long-lived spool makes a new one."""
    if w.index.exists():
        w.index.unlink()
    w.live = (w.live if w.live is not None else fresh(w)).update(progress=None)


def act_lazy(w):
    """No explicit update: without an index the contents are found anyway."""
    if w.index.exists():
        w.index.unlink()
    w.live = fresh(w)


def act_twice(w):
    act_live(w)
    act_live(w)


ACTIONS = {"live": act_live, "query": act_query, "new": act_new, "other": act_other, "paths": act_paths, "no index": act_no_index, "lazy": act_lazy, "twice": act_twice}
CORE_ACTIONS = ["live", "query", "new", "other"]


# ---------------------------------------------------------------- oracle
def check(w, what=""):
    """The live spool has exactly the patches in the files."""
    want = w.expected()
    sp = w.live
    df = sp.get_contents()
    rows = sorted((str(p).replace(os.sep, "/"), tag) for p, tag in zip(df["path"], df["tag"])) if len(df) else []
    exp_rows = sorted((row_path(rel, q), w.alpha[q].attrs.tag) for rel, q in want)
    expect(rows == exp_rows, f"{what}rows of the contents", rows, "expected", exp_rows)
    # metadata are the current ones
    for rel, q in want:
        hit = df[(df["path"] == row_path(rel, q)) & (df["tag"] == w.alpha[q].attrs.tag)]
        r, patch = hit.iloc[0], w.alpha[q]
        expect(len(hit) == 1, f"{what}rows of a patch", len(hit))
        expect(r["dims"] == ",".join(patch.dims), f"{what}dims", r["dims"], patch.dims)
        expect(r["station"] == patch.attrs.station, f"{what}station", r["station"])
        if "time" in patch.dims:
            t = patch.get_coord("time")
            expect(ns(r["time_min"]) == t.min().astype("i8") and ns(r["time_max"]) == t.max().astype("i8"), f"{what}time limits", r["time_min"], r["time_max"], t)
        else:
            expect(r["time_min"] != r["time_min"], f"{what}time of a patch without time", r["time_min"])
    same_patches(list(sp), [q for _, q in want], w, f"{what}iteration: ")
    return [(r, t) for r, t in zip(df["path"], df["tag"])] if len(df) else []


def ns(x):
    return np.datetime64(x).astype("M8[ns]").astype("i8") if isinstance(x, np.datetime64) else pd.Timestamp(x).as_unit("ns").value


def row_path(rel, q):
    if rel == D:  # directories are indexed by the files in them
        return f"{D}/{RAWNAMES[int(q[-1])]}"
    return rel


RAWNAMES = {}


def same_patches(got, names, w, what):
    left = list(names)
    for p in got:
        hit = next((n for n in left if io.is_same(p, w.alpha[n])), None)
        expect(hit is not None, f"{what}unexpected (or altered or duplicated) patch", p, "left", left)
        left.remove(hit)
    expect(not left, f"{what}patches missing", left)


def queries(w):
    """Time, attribute and joint queries are exact."""
    want = w.expected()
    names = [q for _, q in want]
    t0 = io.T0

    def span(q):
        p = w.alpha[q]
        if "time" not in p.dims:
            return None
        c = p.get_coord("time")
        return c.min(), c.max()

    for lo, hi in ((None, t0 + 2 * io.SEC), (t0 + 3 * io.SEC, t0 + 4 * io.SEC), (t0 + 60 * io.SEC, None), (t0 + 20 * io.SEC, t0 + 30 * io.SEC), (t0 - 10**6 * io.SEC, t0 + 10**6 * io.SEC)):
        exp = [q for q in names if span(q) is not None and (lo is None or span(q)[1] >= lo) and (hi is None or span(q)[0] <= hi)]
        sub = w.live.select(time=(lo, hi))
        tags = sorted(sub.get_contents()["tag"]) if exp else list(sub.get_contents().get("tag", []))
        expect(tags == sorted(w.alpha[q].attrs.tag for q in exp), "time query", lo, hi, tags, exp)
        if exp:
            got = list(sub)
            expect(len(got) == len(exp), "patches of a time query", len(got), exp)
            for g in got:
                q = next(q for q in exp if w.alpha[q].attrs.tag == g.attrs.tag and np.array_equal(g.get_array("distance"), w.alpha[q].get_array("distance")) and io.is_same(g, w.alpha[q].select(time=(lo, hi))))
                exp.remove(q)
    for tag in ("k1", "k?", "k1*", "zzz"):
        import fnmatch

        exp = sorted(w.alpha[q].attrs.tag for q in names if fnmatch.fnmatchcase(w.alpha[q].attrs.tag, tag))
        got = sorted(w.live.select(tag=tag).get_contents()["tag"]) if len(w.live.get_contents()) else []
        expect(got == exp, "tag query", tag, got, exp)
        sub = w.live.select(tag=tag, time=(t0, t0 + 10 * io.SEC)) if names else []
        exp = sorted(w.alpha[q].attrs.tag for q in names if fnmatch.fnmatchcase(w.alpha[q].attrs.tag, tag) and span(q) is not None and span(q)[1] >= t0 and span(q)[0] <= t0 + 10 * io.SEC)
        got = sorted(sub.get_contents()["tag"]) if names and len(sub.get_contents()) else []
        expect(got == exp, "joint query", tag, got, exp)


# ---------------------------------------------------------------- exploration
def rounds(tier, level):
    """The (event, action) pairs allowed in round `level`."""
    if tier == "quick":
        if level == 0:
            return [(e, a) for e in EVENTS for a in (("live", "lazy") if e == "add b" else ("live",))]
        if level == 1:
            return [(e, a) for e in EVENTS for a in (tuple(ACTIONS)[:6] if e in ("add b", "append a", "replace a") else ("query", "other"))]
        return [(e, "query") for e in CORE_EVENTS]
    if level == 0:
        return [(e, a) for e in EVENTS for a in ("live", "lazy", "paths")]
    if level == 1:
        return [(e, a) for e in EVENTS for a in ACTIONS]
    if level == 2:
        return [(e, a) for e in EVENTS for a in CORE_ACTIONS]
    return [(e, a) for e in CORE_EVENTS for a in ("query", "other")]


def shards(tier):
    out = []
    for e, a in rounds(tier, 0):
        for k in range(4 if tier == "quick" else 16):
            out.append(("hist", e, a, k, 4 if tier == "quick" else 16))
    n = 4 if tier == "quick" else 32
    for state in CRASH_STATES if tier != "quick" else CRASH_STATES[1:3]:
        out += [("crash", state, k, n) for k in range(n)]
    out += [("during", k) for k in range(len(DURING))]
    return out


def run(shard, ctx):
    with tempfile.TemporaryDirectory(dir=SCRATCH) as tmp, quiet_map(Path(tmp)):
        tmp = Path(tmp)
        store, alpha = build_store(tmp)
        RAWNAMES.update({i: x.name for i, x in enumerate(sorted((store / "d2").glob("*.raw")))})
        if shard[0] == "hist":
            run_hist(shard, ctx, tmp, store, alpha)
        elif shard[0] == "crash":
            run_crash(shard, ctx, tmp, store, alpha)
        else:
            run_during(shard, ctx, tmp, store, alpha)


class quiet_map:
    """Keep the user's index map out of the game."""

    def __init__(self, tmp):
        self.path = tmp / "cache" / "map.json"

    def __enter__(self):
        from dascore.io.indexer import DirectoryIndexer

        self.old = DirectoryIndexer.index_map_path
        DirectoryIndexer.index_map_path = self.path

    def __exit__(self, *exc):
        from dascore.io.indexer import DirectoryIndexer

        DirectoryIndexer.index_map_path = self.old


def run_hist(shard, ctx, tmp, store, alpha):
    _, e, a, k, n = shard
    w = World(tmp, store, alpha)
    core = e in CORE_EVENTS and a == "live"
    depth = (2 if ctx.tier == "quick" else 3) + core
    seen = set()
    first = w.snapshot(tmp / "snap0")
    state = step(w, ctx, (), e, a, first, record=k == 0)
    if state is None:
        return
    dfs(w, ctx, tmp, ((e, a),), depth, seen, (k, n))


def step(w, ctx, hist, e, a, snap, record=True):
    """One round: file event, index action, oracle."""
    out = None
    h = [f"{x}/{y}" for x, y in (*hist, (e, a))]
    w.restore(snap)
    with ctx.case(dict(history=h)):
        EVENTS[e](w)
        ctx.trans(2)
        ACTIONS[a](w)
        rows = check(w)
        if len(hist) == 1 and a in ("query", "live"):
            queries(w)
        out = (tuple(sorted(w.files.items())), w.flags, tuple(rows))
        ctx.state(out)
        if record:
            ctx.trace()
            ctx.outcome(f"{e}/{a}")
    return out


def dfs(w, ctx, tmp, hist, depth, seen, part=None):
    level = len(hist)
    if level >= depth:
        return
    snap = w.snapshot(tmp / f"snap{level}")
    for i, (e, a) in enumerate(rounds(ctx.tier, level)):
        if part and i % part[1] != part[0]:
            continue
        key = step(w, ctx, hist, e, a, snap)
        if key is None:
            continue
        if ctx.tier == "quick" and (e not in CORE_EVENTS or a not in ("query", "live")):
            continue
        left = depth - level
        if (key, a in ("query", "other", "live", "twice"), left) in seen:
            continue
        seen.add((key, a in ("query", "other", "live", "twice"), left))
        dfs(w, ctx, tmp, (*hist, (e, a)), depth, seen)


# ---------------------------------------------------------------- crashes
# (events indexed before, events waiting for the interrupted update)
CRASH_STATES = [((), ("add a", "add b")), (("add a",), ("add b",)), (("add a", "add b"), ("append a",)), (("add b",), ("no time", "long")), (("add a",), ("replace a", "raw")), (("pickle", "add a"), ("delete", "add b")), (("raw",), ("raw more",)), ((), ("no time",))]


class Stopper:
    """End the process at the k-th step of the code which maintains the index."""

    def __init__(self, k, deep):
        self.k, self.deep, self.count = k, deep, 0
        root = os.path.realpath(os.environ.get("VPMC_REPO", "/repo"))
        names = ("dascore/io/indexer.py", "dascore/utils/hdf5.py", "dascore/clients/dirspool.py")
        self.lines = tuple(os.path.join(root, x) for x in names)
        self.is_line = {}

    def tick(self):
        self.count += 1
        if self.count == self.k:
            os._exit(17)

    def call(self, frame, event, arg):
        name = frame.f_code.co_filename
        kind = self.is_line.get(name)
        if kind is None:
            kind = 1 if os.path.realpath(name) in self.lines else 2 if "pandas/io/pytables" in name or "/tables/" in name else 0
            self.is_line[name] = kind
        if kind == 1:
            return self.line
        if kind == 2 and self.deep:
            self.tick()
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.tick()
        return self.line

    def __enter__(self):
        sys.settrace(self.call)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)


def run_crash(shard, ctx, tmp, store, alpha):
    _, (before, waiting), part, n = shard
    deep = ctx.tier != "quick"
    w = World(tmp, store, alpha)
    for e in before:
        EVENTS[e](w)
    if before:
        act_live(w)
    for e in waiting:
        EVENTS[e](w)
    snap = w.snapshot(tmp / "base")
    with Stopper(-1, deep) as st:  # an uninterrupted update
        act_live(w)
    total, seen = st.count, set()
    for k in range(1 + part, total + 1, n):
        w.restore(snap)
        stopped = crash_exit(w, k, deep)
        ctx.count("crash_points")
        ctx.trans()
        ctx.outcome("stopped" if stopped else "finished")
        key = tuple((str(x.relative_to(w.dir)), x.read_bytes()) for x in sorted(w.dir.rglob(".*")) if x.is_file())
        if not ctx.state((before, waiting, key)) or key in seen:
            continue  # the same bytes on disk as after another crash point
        seen.add(key)
        torn = w.snapshot(tmp / "torn")
        for after in ("new", "live", "lazy") if deep else (("new", "live", "lazy")[k // n % 3],):
            w.restore(torn)
            with ctx.case(dict(state=[before, waiting], step=k, of=total, after=after)):
                ctx.trans()
                if after == "lazy":  # an index without all the files may be found, but nothing wrong or twice
                    partial(w)
                    act_new(w)
                else:
                    ACTIONS[after](w)
                check(w, "after the crash ")
                if deep or k % 3 == 0:
                    queries(w)
                act_live(w)
                check(w, "after another update ")
                ctx.trace()


def crash_exit(w, k, deep):
    pid = os.fork()
    if pid == 0:
        try:
            sys.stdout = sys.stderr = open(os.devnull, "w")
            with Stopper(k, deep):
                act_live(w)
        finally:
            os._exit(0)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status) == 17


def partial(w):
    import dascore as dc

    df = dc.spool(w.dir).get_contents()
    rows = [(str(p), t) for p, t in zip(df["path"], df["tag"])] if len(df) else []
    expect(len(rows) == len(set(rows)), "rows twice in the index of an interrupted update", rows)


# ---------------------------------------------------------------- files which arrive while an update runs
DURING = [(B, "b2"), (A, "aa"), ("z.h5", "far"), (N, "n"), ("0first.h5", "far"), ("sub/0.h5", "far")]


TODO, INTERRUPT = [], []


@functools.cache
def trigger():
    """Register a format whose files do something when they are scanned."""
    import dascore as dc
    from dascore.io.core import FiberIO

    class Trigger(FiberIO):
        name, version = "VPMCTRIG", "1"
        preferred_extensions = ("trig",)

        def get_format(self, resource: Path, **kwargs):
            return (self.name, self.version) if str(resource).endswith(".trig") else False

        def scan(self, resource: Path, **kwargs):
            while TODO:
                TODO.pop()()
            if INTERRUPT:
                INTERRUPT.clear()
                raise KeyboardInterrupt("injected")
            return []

        def read(self, resource: Path, **kwargs):
            return dc.spool([])

    return Trigger


def run_during(shard, ctx, tmp, store, alpha):
    """A file arrives while the update scans (a marker file's reader lets it)."""
    rel, content = DURING[shard[1]]
    trigger()
    todo, interrupt = TODO, INTERRUPT
    for marker in ("m.trig", "sub/m.trig"):
        for first in ("live", "query", "new", "interrupted") if ctx.tier != "quick" else ("query", "interrupted"):
            for second in ACTIONS if ctx.tier != "quick" else ("live", "new", "other"):
                w = World(tmp, store, alpha)
                with ctx.case(dict(during=rel, content=content, marker=marker, first=first, second=second)):
                    ctx.trans(4)
                    w.put(A, "a1")
                    act_live(w)
                    check(w)
                    (w.dir / marker).parent.mkdir(exist_ok=True)
                    shutil.copyfile(store / "trig", w.dir / marker)
                    todo[:] = [lambda: w.put(rel, content)]
                    before = dict(w.files)
                    if first == "interrupted":  # ctrl + c while scanning
                        interrupt.append(True)
                        try:
                            act_query(w)
                        except KeyboardInterrupt:
                            ctx.count("interrupted")
                    else:
                        ACTIONS[first](w)
                    if todo:  # the marker was not scanned
                        todo.clear()
                        w.files = before
                        w.put(rel, content)
                        ctx.count("marker not scanned")
                    rows = [(r, t) for r, t in zip(*(w.live.get_contents()[c] for c in ("path", "tag")))]
                    expect(len(rows) == len(set(rows)), "rows twice", rows)
                    ACTIONS[second](w)
                    check(w, "after the next update ")
                    queries(w)
                    ctx.state((rel, marker, first, second))
                    ctx.trace()
                    ctx.outcome("during")
