"""C23: damaged or foreign files give an error or true data, and leave the rest alone."""
from __future__ import annotations

import json
import shutil
import tempfile
import warnings
from datetime import datetime
from pathlib import Path

import h5py
import numpy as np

from mc import formats as F
from mc.core import SCRATCH, expect
from mc.gen import same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive fault enumeration: every file layout of every readable format cut off at every byte (a crash while writing), replaced by the content of every other format or junk, or with every HDF5 node and attribute removed or replaced; the index and the index map cut off, emptied or replaced; after each fault format detection, scan and read are compared with the undamaged file and a directory with intact neighbours must still give all of them"
ASSUMPTIONS = [
    "a damaged file may be refused with any error, or give a leading part of its patches where its format does not say how much there should be (labels and values must be the true ones)",
    "the last number of a text file has no end mark, so a cut inside it cannot be noticed",
    "bytes are lost from the end, not changed in place (no format here carries check sums)",
]
BOUNDS = {
    "quick": "72 layouts of 22 formats; for one layout per format every cut of files up to 600 bytes, else the first and last 24 bytes, both sides of every 512 byte block and 50 evenly spread ones (HDF5: 8, 8 and 16), for the others every 7th byte and the last 40; every format's file name with every other format's content and 7 kinds of junk; each node and attribute of one layout per HDF5 format removed or replaced; the index cut at 30 points, replaced or without its bookkeeping nodes; the index map cut at every byte",
    "thorough": "every byte of every file up to 16 kB (else every 16th), every layout's nodes, every pair of layouts; the index at every 128th byte",
}
FIRST = {}
for _i, (_fn, _kw) in enumerate(F.LAYOUTS):
    FIRST.setdefault(_fn.__name__, _i)
HEAVY = {"segy", "pickle_", "xml_binary"}


def shards(tier):
    out = []
    for i, (fn, _) in enumerate(F.LAYOUTS):
        if tier == "quick":
            out.append(("cut", i, 0, 1))
        else:
            out += [("cut", i, k, 8) for k in range(8)]
    some = list(FIRST.values()) if tier == "quick" else range(len(F.LAYOUTS))
    out += [("foreign", i) for i in some]
    out += [("nodes", i) for i in some]
    out += [("index", k, 12) for k in range(12)] + [("map", k, 4) for k in range(4)]
    return sorted(out, key=lambda s: s[0] != "cut" or F.LAYOUTS[s[1]][0].__name__ not in HEAVY)


JUNK = {
    "empty": b"",
    "text": b"not data\n1,2,3\n",
    "binary": bytes((i * 37 + 11) % 256 for i in range(3000)),
    "zeros": bytes(3000),
    "ones": b"\xff" * 3000,
    "xml": b"<?xml version='1.0' encoding='utf-8'?><a><b>1</b></a>",
    "json": b'{"a": [1, 2, {"b": null}]}',
}


def outcome(func):
    """(ok, value) or (name of the error, text)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", func()
        except Exception as e:
            return type(e).__name__, e


def part_of(p, full):
    """True if the patch is one of the patches, or a leading part of one."""
    for f in full:
        if tuple(p.dims) != tuple(f.dims) or np.asarray(p.data).dtype != np.asarray(f.data).dtype:
            continue
        n = p.shape
        if any(a > b for a, b in zip(n, f.shape)) or sum(a != b for a, b in zip(n, f.shape)) > 1:
            continue
        if not all(same(np.asarray(p.get_array(d)), np.asarray(f.get_array(d))[: n[k]]) for k, d in enumerate(p.dims)):
            continue
        if same(np.asarray(p.data), np.asarray(f.data)[tuple(slice(0, k) for k in n)]):
            return True
    return False


def extent(coords):
    """What a scan and a patch both say about the dimensions."""
    out = {}
    for n, c in coords.items():
        c = c.to_summary() if callable(getattr(c, "to_summary", None)) else c
        out[n] = tuple(str(np.datetime64(x, "ns") if isinstance(x, datetime) else x) for x in (c.min, c.max))
    return dict(sorted(out.items()))


def scan_rows(scans, root):
    out = []
    for s in scans:
        d = {k: str(v) for k, v in s.flat_dump(exclude=["history"]).items() if k != "path"}
        out.append((str(Path(s["path"]).relative_to(root)), json.dumps(d, sort_keys=True, default=str)))
    return sorted(out)


class World:
    """A directory with intact files around one which gets damaged."""

    def __init__(self, i, d):
        import dascore as dc

        self.root = Path(d) / "root"
        self.bad_dir = self.root / "m_bad"
        for n in ("a_good", "m_bad", "z_good"):
            (self.root / n).mkdir(parents=True)
        self.lab = F.label(i)
        self.good = [F.build(FIRST["dasdae"], self.root / "a_good")[0], F.build(i, self.root / "z_good")[0], F.build(FIRST["prodml"], self.root)[0]]
        self.path, self.wants = F.build(i, self.bad_dir)
        self.path = Path(self.path)
        self.full = list(dc.read(self.path))
        self.fmt = dc.get_format(self.path)
        self.scanned = dc.scan(self.path, progress=None)
        self.good_rows = scan_rows([s for g in self.good for s in dc.scan(g, progress=None)], self.root)
        self.good_patches = [p for g in self.good for p in dc.read(g)]
        self.files = sorted(p for p in self.path.rglob("*") if p.is_file()) if self.path.is_dir() else [self.path]

    def check_neighbours(self, what, deep):
        """The intact files are not affected."""
        import dascore as dc

        kind, got = outcome(lambda: dc.scan(self.root, progress=None))
        if kind != "ok":
            raise got
        rows = [r for r in scan_rows(got, self.root) if not r[0].startswith("m_bad")]
        expect(rows == self.good_rows, f"{what}: scan of the intact files", [r[0] for r in rows], [r[0] for r in self.good_rows])
        if not deep:
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sp = dc.spool(self.root).update(progress=None)
            df = sp.get_contents()
            idx = [k for k, x in enumerate(df["path"]) if "m_bad" not in str(x)]
            expect(len(idx) == len(self.good_patches), f"{what}: rows of intact files in the directory spool", len(idx), len(self.good_patches))
            for k in idx:
                expect(part_of(sp[k], [p for p in self.good_patches if p.shape == sp[k].shape]), f"{what}: patch of an intact file", k)
        for f in self.root.glob(".dascore_index*"):
            f.unlink()

    def check(self, what, seen, full=None, exact=False, other=False):
        """What the damaged file gives."""
        import dascore as dc
        from dascore.exceptions import UnknownFiberFormatError

        full = self.full if full is None else full
        kind, got = outcome(lambda: dc.get_format(self.path))
        if kind == "ok":
            expect(other or tuple(got) == tuple(self.fmt), f"{what}: format", got, self.fmt)
        else:
            expect(isinstance(got, UnknownFiberFormatError), f"{what}: get_format raises {kind} instead of UnknownFiberFormatError", got)
        rk, patches = outcome(lambda: list(dc.read(self.path)))
        if rk == "ok":
            for p in patches:
                ok = any(p.shape == f.shape for f in full) if exact else True
                expect(ok and part_of(p, full), f"{what}: read gives other data", p.shape, np.asarray(p.data).tolist(), {d: p.get_array(d).tolist() for d in p.dims})
        sk, scans = outcome(lambda: dc.scan(self.path, progress=None))
        if sk != "ok":
            raise scans
        told = set.intersection(*[set(s.coords) for s in scans]) if scans else ()  # (an indexed file only tells times)
        of = lambda p: extent({d: p.get_coord(d) for d in p.dims if not scans or d in told})
        say = [extent({d: s.coords[d] for d in s.dim_tuple if d in told}) for s in scans]
        may = [of(p) for p in [*full, *(patches if rk == "ok" else [])]]
        if rk == "ok":  # exactly what is read
            have = [of(p) for p in patches if p.data.size]
            expect(sorted(map(str, say)) == sorted(map(str, have)), f"{what}: scan and read differ", say, have)
        for s in say:
            expect(s in may, f"{what}: scan reports what never was in the file", s, may)
        new = (kind, rk, len(scans))
        deep = new not in seen
        seen.add(new)
        self.check_neighbours(what, deep)
        return new


def cuts(n, tier, h5, first=True):
    if tier == "thorough":
        return list(range(0, n, 1 if n <= 16384 else 16))
    if not first:  # another layout of the same format
        return sorted({*range(0, n, 7 if n <= 600 else max(1, n // 12)), *range(n - (6 if h5 else 40), n)})
    if n <= 600 and not h5:
        return list(range(n))
    e = 8 if h5 else 24
    out = {*range(e), *range(n - e, n), *np.linspace(0, n - 1, 50 if not h5 else 16).astype(int).tolist()}
    if not h5:
        out |= {k + o for k in range(0, n, 512) for o in (-1, 0, 1) if 0 <= k + o < n}
    return sorted(out)


def run_cut(i, part, parts, ctx, d):
    w = World(i, d)
    seen = set()
    for f in w.files:
        raw = f.read_bytes()
        h5 = raw[:4] == b"\x89HDF"
        last = len(raw.rstrip().rsplit(b"\n", 1)[0]) if w.lab.startswith("febus_g1_csv") else None
        for k in cuts(len(raw), ctx.tier, h5, i in FIRST.values())[part::parts]:
            if last is not None and last < k < len(raw):
                continue
            with ctx.case(dict(file=w.lab, name=f.name, cut=k)):
                ctx.trans(), ctx.trace()
                f.write_bytes(raw[:k])
                new = w.check(f"{w.lab}: {f.name} cut at byte {k} of {len(raw)}", seen)
                ctx.outcome(str(new))
                ctx.state((w.lab, f.name, k, new))
        f.write_bytes(raw)
    with ctx.case(dict(file=w.lab, restored=True)):  # nothing remembers the damage
        ctx.trans(), ctx.trace()
        new = w.check(f"{w.lab}: restored", set(), exact=True)
        expect(new == ("ok", "ok", len(w.scanned)), f"{w.lab}: the restored file", new)
    ctx.sample(dict(file=w.lab, outcomes=sorted(map(str, seen))))


def run_foreign(i, ctx, d):
    import dascore as dc

    w = World(i, d)
    seen = set()
    if w.path.is_dir():
        return
    others = FIRST.values() if ctx.tier == "quick" else range(len(F.LAYOUTS))
    contents = {name: (raw, []) for name, raw in JUNK.items()}
    for j in others:
        sub = Path(tempfile.mkdtemp(dir=d))
        p, _ = F.build(j, sub)
        if Path(p).is_dir():
            continue
        contents[F.label(j)] = (Path(p).read_bytes(), list(dc.read(p)))
    for name, (raw, patches) in contents.items():
        with ctx.case(dict(file=w.lab, content=name)):
            ctx.trans(), ctx.trace()
            w.path.write_bytes(raw)
            new = w.check(f"{w.lab}: with the content of {name}", seen, patches, exact=True, other=bool(patches))
            if not patches:
                expect(new[1] != "ok", f"{w.lab}: with the content of {name} can be read")
            ctx.outcome(str(new))
            ctx.state((w.lab, name, new))


def nodes(path):
    """Every way to damage one part of an HDF5 file."""
    out = []
    with h5py.File(path, "r") as f:
        names = []
        f.visit(names.append)
        for n in names:
            out.append(("remove", n, None))
            if isinstance(f[n], h5py.Dataset):
                out += [("empty", n, None), ("text", n, None)]
        for n in ["/", *names]:
            for a in f[n].attrs:
                out += [("remove", n, a), ("text", n, a)]
    return out


def damage(path, how, node, attr):
    with h5py.File(path, "a") as f:
        if attr is not None:
            if how == "remove":
                del f[node].attrs[attr]
            else:
                f[node].attrs[attr] = "damaged"
            return
        old = f[node]
        attrs = dict(old.attrs)
        dtype = old.dtype if isinstance(old, h5py.Dataset) else None
        del f[node]
        if how == "empty":
            f.create_dataset(node, shape=(0,), dtype=dtype)
        elif how == "text":
            f.create_dataset(node, data="damaged")
        if how != "remove":
            for k, v in attrs.items():
                f[node].attrs[k] = v


def run_nodes(i, ctx, d):
    w = World(i, d)
    raw = w.path.read_bytes() if w.path.is_file() else b""
    if raw[:4] != b"\x89HDF":
        return
    seen = set()
    for how, node, attr in nodes(w.path):
        with ctx.case(dict(file=w.lab, how=how, node=node, attr=attr)):
            ctx.trans(), ctx.trace()
            w.path.write_bytes(raw)
            try:
                damage(w.path, how, node, attr)
            except (OSError, TypeError, ValueError, KeyError, RuntimeError):  # not possible for this node
                continue
            import dascore as dc

            rk = outcome(lambda: len(dc.read(w.path)))[0]
            gk = outcome(lambda: dc.get_format(w.path))
            expect(gk[0] in ("ok", "UnknownFiberFormatError"), f"{w.lab}: {how} {node} {attr or ''}: get_format raises {gk[0]}", gk[1])
            new = (gk[0], rk)
            w.check_neighbours(f"{w.lab}: {how} {node} {attr or ''}", new not in seen)
            seen.add(new)
            ctx.outcome(str(new))
            ctx.state((w.lab, how, node, attr, new))


# ------------------------------------------------------------- the index
def data_dir(d):
    import dascore as dc

    root = Path(d) / "data"
    (root / "sub").mkdir(parents=True)
    want = []
    for k, p in enumerate(F._patches(3)):
        p = p.update_attrs(tag=f"t{k}")
        dc.write(p, root / ("sub" if k == 1 else "") / f"p{k}.h5", "DASDAE")
        want.append(p)
    return root, want


def check_dir(spool, want, what):
    expect(len(spool) == len(want), f"{what}: length", len(spool), len(want))
    got = {p.attrs.tag: p for p in spool}
    expect(sorted(got) == sorted(p.attrs.tag for p in want), f"{what}: patches", sorted(got))
    for p in want:
        g = got[p.attrs.tag]
        expect(g.dims == p.dims and same(np.asarray(g.data), np.asarray(p.data)) and all(same(np.asarray(g.get_array(n)), np.asarray(p.get_array(n))) for n in p.dims), f"{what}: patch {p.attrs.tag}")


ACCESS = {
    "contents": lambda sp: sp,
    "update": lambda sp: sp.update(progress=None),
    "select": lambda sp: sp.select(tag="t*"),
}


def index_damages(index, d, tier):
    raw = index.read_bytes()
    n = len(raw)
    pts = range(0, n, 128) if tier == "thorough" else np.linspace(0, n - 1, 24).astype(int).tolist()
    out = [(f"cut at byte {k}", lambda k=k: index.write_bytes(raw[:k])) for k in sorted({*range(9), *pts, n - 1})]
    out += [(f"{name} content", lambda c=c: index.write_bytes(c)) for name, c in JUNK.items()]
    for name in ("dasdae", "prodml", "h5simple"):
        sub = Path(tempfile.mkdtemp(dir=d))
        c = Path(F.build(FIRST[name], sub)[0]).read_bytes()
        out.append((f"{name} content", lambda c=c: index.write_bytes(c)))
    def drop(node):
        index.write_bytes(raw)
        with h5py.File(index, "a") as f:
            del f[node]

    with h5py.File(index, "r") as f:
        names = [x for x in f if x != "index"]  # what is not the table itself
    out += [(f"without {x}", lambda x=x: drop(x)) for x in names]
    return out


def run_index(k, n, ctx, d):
    import dascore as dc

    root, want = data_dir(d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dc.spool(root).update(progress=None)
        index = root / ".dascore_index.h5"
        raw = index.read_bytes()
        for name, hurt in index_damages(index, d, ctx.tier)[k::n]:
            for how, access in ACCESS.items():
                for fresh in (True, False):
                    with ctx.case(dict(index=name, access=how, fresh=fresh)):
                        ctx.trans(), ctx.trace()
                        index.write_bytes(raw)
                        sp = None if fresh else dc.spool(root)
                        hurt()
                        sp = dc.spool(root) if sp is None else sp
                        check_dir(access(sp), want, f"index {name}: {how}")
                        check_dir(dc.spool(root), want, f"index {name}: {how}, opened again")
                        check_dir(dc.spool(root).update(progress=None), want, f"index {name}: {how}, updated")
                        ctx.state((name, how, fresh))


def run_map(k, n, ctx, d):
    import dascore as dc
    from dascore.clients.dirspool import DirectorySpool
    from dascore.io import indexer
    from dascore.io.indexer import DirectoryIndexer

    root, want = data_dir(d)
    index = Path(d) / "elsewhere" / "index.h5"
    index.parent.mkdir()
    mapping = Path(d) / "cache" / "map.json"
    old, DirectoryIndexer.index_map_path = DirectoryIndexer.index_map_path, mapping

    def new_process():
        """Nothing is remembered in memory."""
        getattr(indexer._get_index_map, "cache_clear", lambda: None)()

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            DirectorySpool(root, index_path=index).update(progress=None)
            raw = mapping.read_bytes()
            contents = {f"cut at byte {k}": raw[:k] for k in range(len(raw) + 1)}
            key = str(root)
            contents |= {f"{k} content": v for k, v in JUNK.items()}
            contents |= {str(v): json.dumps(v).encode() for v in ([], [1], 3, None, "text", {key: 3}, {key: None}, {key: []}, {key: ""}, {key: {}}, {"other": 1}, {key: str(root / "gone" / "index.h5")})}
            for name, content in list(contents.items())[k::n]:
                for given in (False, True):
                    with ctx.case(dict(map=name, index_given=given)):
                        ctx.trans(), ctx.trace()
                        (root / ".dascore_index.h5").unlink(missing_ok=True)
                        mapping.parent.mkdir(exist_ok=True)
                        mapping.write_bytes(content)
                        new_process()
                        sp = DirectorySpool(root, index_path=index) if given else dc.spool(root)
                        check_dir(sp, want, f"index map {name}")
                        check_dir(sp.update(progress=None), want, f"index map {name}: updated")
                        new_process()
                        sp = dc.spool(root)
                        check_dir(sp, want, f"index map {name}: opened again")
                        if given:
                            expect(Path(sp.indexer.index_path) == index, f"index map {name}: the given index is not found again", sp.indexer.index_path)
                        ctx.state((name, given))
    finally:
        DirectoryIndexer.index_map_path = old
        new_process()


def run(shard, ctx):
    import time

    time.sleep = lambda s: None  # (a damaged index is tried again after a while)
    d = tempfile.mkdtemp(prefix="c23_", dir=SCRATCH)
    try:
        kind, *args = shard
        dict(cut=run_cut, foreign=run_foreign, nodes=run_nodes, index=run_index, map=run_map)[kind](*args, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
