"""C24: every export format preserves what it promises to carry."""
from __future__ import annotations

import copy
import itertools
import pickle
import re
import shutil
import tempfile
import wave  # noqa: F401  (documents that wav needs nothing but the standard layout)
from pathlib import Path

import numpy as np

from mc.checks.c13 import same_units, vals
from mc.core import expect
from mc.gen import same
from mc.ref import T0, compare, initials, to_patch

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration on the real code of all small patches (dimension orders, lengths, sampling steps, start fractions, directions, dtypes, coordinate kinds) x export formats x writing options, decoded independently (own RSF, WAV and SEG-Y byte decoders, obspy stats) and read back through the library where it can read the format"
ASSUMPTIONS = ["formats are compared on what they can represent: float32 for RSF/WAV/SEG-Y (IBM float, 1e-6), channel number instead of distance in SEG-Y as announced by its warning", "a patch the format cannot hold may be refused with an exception"]
BOUNDS = {
    "quick": "2-D patches with 1..3 traces x 2..4 samples, both dimension orders, both directions of both coordinates, 7 sampling steps, 4 start times, 9 dtypes; pickle and xarray on 9 initial patches (1-3 dims, every coordinate kind) x attrs x histories of 1-3 writes to one file",
    "thorough": "lengths to 6 and all sampling steps x start times x dtypes in one product",
}
STEPS = (1000, 100, 10**6, 3, 32767, 333, 40000)  # us
STARTS = ("2020-01-01T00:00:01", "2020-12-31T23:59:59", "2019-02-28T00:00:00.5", "1999-06-15T12:30:15.123456789")
DTYPES = ("f4", "f8", "i2", "i4", "i8", "u1", ">f4", "bool", "c16")


def shards(tier):
    out = [dict(kind="pickle", init=k) for k in initials()]
    out += [dict(kind="xarray", init=k) for k in initials()]
    for fmt in ("rsf", "wav", "segy", "obspy"):
        for order in (0, 1):
            for rev in (False, True):
                out.append(dict(kind="grid", fmt=fmt, order=order, rev=rev))
    out.append(dict(kind="streams"))
    out.append(dict(kind="bad"))
    out.append(dict(kind="fraction"))
    return out


def run(shard, ctx):
    import warnings

    warnings.simplefilter("ignore")
    d = Path(tempfile.mkdtemp(prefix="vpmc24_"))
    try:
        globals()["run_" + shard["kind"]](shard, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ATTRS = [{}, dict(tag="a", data_units="m/s", custom=3, network="N", history=["one", "two"]), dict(station="s_1", category="DAS", data_type="velocity", note="a,b\"c\"")]


def same_attrs(a, b, what):
    a, b = a.model_dump(exclude={"coords"}), b.model_dump(exclude={"coords"})
    for k in set(a) | set(b):
        expect(k in a and k in b and str(a[k]) == str(b[k]), f"{what}: attribute {k}", a.get(k), b.get(k))


# ------------------------------------------------------------------ pickle
def run_pickle(shard, ctx, d):
    import dascore as dc

    ref = initials()[shard["init"]]
    for ai, attrs in enumerate(ATTRS):
        p = to_patch(ref, attrs)
        if "distance" in p.dims and ai == 1 and p.shape[p.dims.index("distance")]:
            p = p.set_units(distance="ft")
        for how in ("dumps", "deepcopy", "file", "stream", "spool", "class"):
            with ctx.case(dict(op="pickle", init=shard["init"], attrs=ai, how=how)):
                ctx.state(("pickle", shard["init"], ai, how))
                path = d / f"{ai}_{how}.pkl"
                if how == "dumps":
                    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
                        q = pickle.loads(pickle.dumps(p, protocol=proto))
                elif how == "deepcopy":
                    q = copy.deepcopy(p)
                elif how == "file":
                    p.io.write(path, "pickle")
                    expect(tuple(dc.get_format(path))[0] == "PICKLE", "format")
                    (q,) = dc.read(path)
                elif how == "stream":
                    import io

                    bio = io.BytesIO()
                    dc.io.pickle.core.PickleIO().write(p, bio)
                    bio.seek(0)
                    (q,) = dc.io.pickle.core.PickleIO().read(bio)
                elif how == "spool":
                    if not p.data.size:
                        continue
                    dc.write(dc.spool([p, p.update_attrs(tag="second")]), path, "pickle")
                    a, b = dc.read(path)
                    expect(b.attrs.tag == "second", "second patch")
                    compare(b, ref, "second ")
                    q = a
                else:
                    dc.io.pickle.core.PickleIO().write(p, path)
                    (q,) = dc.read(path)
                ctx.trans()
                compare(q, ref, how + " ")
                same_attrs(p.attrs, q.attrs, how)
                for n in p.coords.coord_map:
                    same_units(q.get_coord(n).units, p.get_coord(n).units, n)
                    expect(type(q.get_coord(n)) is type(p.get_coord(n)), "coordinate kind", n)
                expect(q.equals(p, only_required_attrs=False), "not equal")
                keep = np.array(p.data)
                if q.data.size and how != "deepcopy":
                    expect(not np.shares_memory(q.data, p.data), "shared memory")
                expect(bool(np.all(keep == p.data)), "original changed")
        if not p.data.size:
            continue
        # histories of writes to one file: what is there is everything written
        for depth in (1, 2, 3):
            with ctx.case(dict(op="pickle-history", init=shard["init"], attrs=ai, depth=depth)):
                ctx.state(("pickle-history", shard["init"], ai, depth))
                path = d / f"h{ai}_{depth}.pkl"
                pats = [p.update(data=(p.data * (k + 1)).astype(p.data.dtype)).update_attrs(tag=f"t{k}") for k in range(depth)]
                for k, x in enumerate(pats):
                    dc.write(dc.spool([x]) if k % 2 else x, path, "pickle")
                    ctx.trans()
                    got = {y.attrs.tag: y for y in dc.read(path)}
                    expect(len(list(dc.read(path))) == k + 1 and set(got) == {f"t{j}" for j in range(k + 1)}, "patches in the file", sorted(got))
                    for j in range(k + 1):
                        expect(got[f"t{j}"].equals(pats[j]), "patch in the file", j)
        with ctx.case(dict(op="pickle-of-file-spool", init=shard["init"], attrs=ai)):
            ctx.state(("pickle-of-file-spool", shard["init"], ai))
            if shard["init"] in ("nocoord",):
                continue
            src, dst = d / f"src{ai}.h5", d / f"dst{ai}.pkl"
            dc.write(p, src, "dasdae")
            dc.write(dc.spool(src), dst, "pickle")
            src.unlink()
            ctx.trans()
            (q,) = dc.read(dst)
            compare(q, ref, "pickled file spool ")


# ------------------------------------------------------------------ xarray
def run_xarray(shard, ctx, d):
    import dascore as dc

    ref = initials()[shard["init"]]
    for ai, attrs in enumerate(ATTRS):
        with ctx.case(dict(op="xarray", init=shard["init"], attrs=ai)):
            ctx.state(("xarray", shard["init"], ai))
            p = to_patch(ref, attrs)
            if "distance" in p.dims and ai == 1 and p.data.size:
                p = p.set_units(distance="ft", time="ms")
            free = [n for n, (dd, v) in ref.coords.items() if not dd]
            if free:
                try:
                    p.io.to_xarray()
                except Exception:
                    ctx.outcome("xarray refuses unassociated arrays")
                p = p.drop_coords(*free)
            part = [n for n, (dd, v) in ref.coords.items() if v is None]
            da = p.io.to_xarray()
            ctx.trans()
            expect(da.dims == p.dims and same(np.asarray(da.data), p.data), "data array")
            for n in set(ref.coords) - set(free) - set(part):
                expect(tuple(da.coords[n].dims) == tuple(ref.coords[n][0]) and same(da.coords[n].values, ref.coords[n][1], 1e-12), "xarray coord", n)
            q = dc.io.xarray_to_patch(da)
            expect(q.dims == p.dims and same(np.asarray(q.data), np.asarray(p.data)) and q.data.dtype == p.data.dtype, "data")
            for n in p.coords.coord_map:
                if n in part:
                    continue
                expect(n in q.coords.coord_map and q.coords.dim_map[n] == p.coords.dim_map[n], "coord", n)
                expect(same(vals(q, n), ref.coords[n][1], 1e-12), "labels", n)
                same_units(q.get_coord(n).units, p.get_coord(n).units, "xarray: " + n)
            same_attrs(p.attrs, q.attrs, "xarray")


# ------------------------------------------------------------------ trace formats
def mkpatch(nd, nt, step_us, start, rev, order, dtype, dim="distance", drev=False, units=True):
    import dascore as dc
    from dascore.core import get_coord

    t = np.datetime64(start, "ns") + np.arange(nt) * np.timedelta64(step_us * 1000, "ns")
    t = t[::-1] if rev else t
    x = np.arange(nd) * (1 if dim == "channel" else 2.5) + (0 if dim == "channel" else 10.0)
    x = x[::-1] if drev else x
    base = ((np.arange(nd * nt) * 37 + 11) % 23 - 9).reshape(nd, nt)
    if np.dtype(dtype).kind in "ub":
        base = np.abs(base)
    data = base.astype(dtype)
    if np.dtype(dtype).kind == "c":
        data = data + 1j
    if np.dtype(dtype).kind == "f":
        data = (data * np.array(0.37, dtype)).astype(dtype)
    coords = {dim: get_coord(data=x, units="m" if units and dim == "distance" else None), "time": get_coord(data=t, units="s" if units else None)}
    p = dc.Patch(data=data, coords=coords, dims=(dim, "time"), attrs=dict(tag="a", data_units="m/s", network="N1"))
    return (p.transpose() if order else p), data, t, x


def run_grid(shard, ctx, d):
    quick = ctx.tier == "quick"
    top = 4 if quick else 6
    combos = []
    for nd, nt in itertools.product(range(1, top), range(2, top + 1)):
        combos.append((nd, nt, 1000, STARTS[0], "f4"))
    if quick:
        combos += [(2, 3, s, STARTS[0], "f8") for s in STEPS] + [(2, 3, 1000, s, "f8") for s in STARTS] + [(3, 4, 1000, STARTS[0], dt) for dt in DTYPES]
    else:
        combos += [(2, 3, s, st, dt) for s in STEPS for st in STARTS for dt in DTYPES]
    for i, (nd, nt, step, start, dtype) in enumerate(combos):
        for drev in (False, True):
            spec = dict(op=shard["fmt"], nd=nd, nt=nt, step=step, start=start, dtype=dtype, order=shard["order"], rev=shard["rev"], drev=drev)
            with ctx.case(spec):
                ctx.state(repr(spec))
                globals()["check_" + shard["fmt"]](ctx, d / f"{i}_{drev}", nd, nt, step, start, shard["rev"], shard["order"], dtype, drev)
                ctx.trans()


def maybe(ctx, refuse_ok, func):
    """Run an export; a refusal is accepted if the format cannot hold the patch."""
    try:
        return func()
    except Exception as exc:
        expect(refuse_ok, f"refused: {type(exc).__name__} {exc}")
        ctx.outcome("refused")
        return None


def check_rsf(ctx, path, nd, nt, step, start, rev, order, dtype, drev):
    p, data, t, x = mkpatch(nd, nt, step, start, rev, order, dtype, drev=drev)
    odd = np.dtype(dtype).kind in "bc" or nd < 2
    for sep in (False, True):
        out = Path(str(path) + f"{sep}.rsf")
        binp = Path(str(path) + "_bin.rsf")
        for again in range(2):  # the second write replaces the first
            kw = dict(data_path=binp) if sep else {}
            done = maybe(ctx, odd, lambda: p.io.write(out, "rsf", **kw))
        if done is None:
            return
        raw = out.read_bytes()
        if sep:
            head = raw.decode()
            body = Path(str(binp) + "@").read_bytes()
            expect(f'in="{binp}@"' in head, "location of the data")
        else:
            cut = len(raw) - data.size * 4
            head, body = raw[:cut].decode(), raw[cut:]
            expect('in="stdin"' in head, "location of the data")
            expect(head.endswith("\n\n"), "end of the header")
        h = dict(re.findall(r'^(\w+)="?([^"\n]*)"?$', head, re.M))
        want = [("time", nt, 0.0, (t[1] - t[0]) / np.timedelta64(1, "s"), "second"), ("distance", nd, x[0], x[1] - x[0] if nd > 1 else None, "meter")]
        if not order:
            want = want[::-1]
        for k, (name, n, o, dd, u) in enumerate(want, 1):
            expect(h[f"label{k}"] == name and int(h[f"n{k}"]) == n, f"axis {k}", h)
            expect(abs(float(h[f"o{k}"]) - o) < 1e-9 and abs(float(h[f"d{k}"]) - dd) < 1e-12, f"sampling of axis {k}", h)
            expect(h[f"unit{k}"] in (u, u[0]), f"units of axis {k}", h)
        # numbers as large as a time stamp only have so many digits
        expect(abs(float(h["starttime"]) - t[0].astype("i8") / 1e9) < 1e-6, "start time", h)
        expect(h["esize"] == "4" and h["data_format"] == "native_float", "format", h)
        got = np.frombuffer(body, dtype="f4")
        expect(len(got) == data.size, "amount of data")
        # madagascar: the first axis is the fastest
        first, second = want[0][1], want[1][1]
        got = got.reshape(second, first).T
        got = got.T if order else got
        expect(bool(np.all(got == data.astype("f4"))), "data", got.tolist(), data.tolist())


def detrended(x):
    """Least squares line removed along the last axis, then scaled to a peak of 1."""
    x = x.astype(float)
    n = x.shape[-1]
    a = np.stack([np.arange(n), np.ones(n)], axis=1)
    res = x - (a @ np.linalg.lstsq(a, x.T, rcond=None)[0]).T
    peak = np.abs(res).max(-1, keepdims=True)
    return res, peak


def check_wav(ctx, path, nd, nt, step, start, rev, order, dtype, drev):
    p, data, t, x = mkpatch(nd, nt, step, start, rev, order, dtype, drev=drev)
    odd = rev or dtype == "c16" or dtype == "bool"
    rate = int(np.round(1e6 / step))
    odd = odd or rate == 0

    def decode(f):
        raw = Path(f).read_bytes()
        expect(raw[:4] == b"RIFF" and raw[8:12] == b"WAVE", "not a wav file")
        pos, fmt, body = 12, None, None
        while pos < len(raw):
            name, size = raw[pos : pos + 4], int.from_bytes(raw[pos + 4 : pos + 8], "little")
            if name == b"fmt ":
                fmt = raw[pos + 8 : pos + 8 + size]
            if name == b"data":
                body = raw[pos + 8 : pos + 8 + size]
            pos += 8 + size + size % 2
        code, chans = int.from_bytes(fmt[:2], "little"), int.from_bytes(fmt[2:4], "little")
        sr = int.from_bytes(fmt[4:8], "little")
        expect(code == 3, "sample format", code)
        return sr, np.frombuffer(body, "<f4").reshape(-1, chans)

    want, peak = detrended(data[:, ::-1] if False else data)
    single = Path(str(path) + ".wav")
    done = maybe(ctx, odd, lambda: p.io.write(single, "wav"))
    if done is None:
        return
    sr, got = decode(single)
    expect(sr == rate, "sampling rate", sr, rate)
    expect(got.shape == (nt, nd), "shape", got.shape)
    for j in range(nd):
        if peak[j, 0] > 1e-6:
            expect(bool(np.all(np.abs(got[:, j] - want[j] / peak[j]) < 1e-4)), "channel", j, got[:, j].tolist(), (want[j] / peak[j]).tolist())
    folder = Path(str(path) + "_dir")
    p.io.write(folder, "wav")
    names = sorted(f.name for f in folder.iterdir())
    expect(names == sorted(f"distance_{v}.wav" for v in x), "files", names)
    for j, v in enumerate(x):
        sr, one = decode(folder / f"distance_{v}.wav")
        expect(sr == rate and bool(np.array_equal(one[:, 0], got[:, j], equal_nan=True)), "one file per channel", v)
    if nt == 4:
        p.io.write(single, "wav", resample_frequency=2 * rate)
        sr, two = decode(single)
        expect(sr == 2 * rate and two.shape[1] == nd and abs(two.shape[0] - 2 * nt) <= 1, "resampled", sr, two.shape)


def ibm(raw):
    """IBM 4-byte floats."""
    u = np.frombuffer(raw, ">u4").astype("u8")
    sign = np.where(u >> 31, -1.0, 1.0)
    ex = ((u >> 24) & 0x7F).astype(int) - 64
    return sign * (u & 0xFFFFFF) / 2.0**24 * 16.0**ex


def check_segy(ctx, path, nd, nt, step, start, rev, order, dtype, drev):
    import dascore as dc

    for dim in ("channel", "distance"):
        p, data, t, x = mkpatch(nd, nt, step, start, rev, order, dtype, dim=dim, drev=drev)
        frac = int(np.datetime64(start, "ns").astype("i8")) % 10**9
        odd = np.dtype(dtype).kind in "bc" or step > 32767 or nd < 2 or frac or drev
        f = Path(str(path) + dim + ".segy")
        done = maybe(ctx, odd, lambda: p.io.write(f, "segy"))
        if done is None:
            continue
        want = data.astype("f4") if not rev else data.astype("f4")[:, ::-1]
        t0 = t.min()
        raw = f.read_bytes()
        body = raw[3600:]
        expect(len(body) == nd * (240 + 4 * nt), "size of the file", len(body))
        expect(int.from_bytes(raw[3216:3218], "big") == step and int.from_bytes(raw[3220:3222], "big") == nt, "binary header")
        for j in range(nd):
            tr = body[j * (240 + 4 * nt) : (j + 1) * (240 + 4 * nt)]
            expect(int.from_bytes(tr[114:116], "big") == nt and int.from_bytes(tr[116:118], "big") == step, "trace header")
            when = [int.from_bytes(tr[k : k + 2], "big") for k in (156, 158, 160, 162, 164)]
            day = (t0.astype("M8[D]") - t0.astype("M8[Y]").astype("M8[D]")).astype(int) + 1
            s = int((t0.astype("M8[s]") - t0.astype("M8[D]")).astype(int))
            expect(when == [int(str(t0)[:4]), day, s // 3600, s // 60 % 60, s % 60], "time in the trace header", when, t0)
            got = ibm(tr[240:])
            expect(bool(np.all(np.abs(got - want[j]) <= 1e-6 * np.maximum(np.abs(want[j]), 1e-30))), "trace", j, got.tolist(), want[j].tolist())
        (q,) = dc.read(f)
        expect(q.dims == ("time", "channel"), "dims")
        expect(bool(np.allclose(q.data.T, want, rtol=1e-6)), "data read back")
        if frac and vals(q, "time")[0] == t0.astype("M8[s]"):
            t0 = t0.astype("M8[s]").astype("M8[ns]")  # the known finding, see run_fraction
        tw = t0 + np.arange(nt) * np.timedelta64(step * 1000, "ns")
        expect(same(vals(q, "time"), tw), "times read back", vals(q, "time"), tw)
        expect(list(vals(q, "channel")) == list(range(nd)), "channels read back")


def check_obspy(ctx, path, nd, nt, step, start, rev, order, dtype, drev):
    import dascore as dc

    p, data, t, x = mkpatch(nd, nt, step, start, rev, order, dtype, drev=drev)
    st = p.io.to_obspy()
    want, tw = (data[:, ::-1], t[::-1]) if rev else (data, t)
    expect(len(st) == nd, "traces")
    for j, tr in enumerate(st):
        expect(same(np.asarray(tr.data), want[j]), "trace", j)
        expect(tr.stats.distance == x[j], "distance of trace", j)
        expect(tr.stats.starttime.ns == int(tw[0].astype("i8")), "start time", tr.stats.starttime.ns)
        expect(abs(tr.stats.delta - step / 1e6) <= 1e-12, "sampling")
        expect(abs(tr.stats.endtime.ns - int(tw[-1].astype("i8"))) <= 1000 * nt, "end time")
        expect(tr.stats.tag == "a" and tr.stats.network == "N1", "attrs")
    q = dc.io.obspy_to_patch(st)
    expect(q.dims == ("distance", "time") and same(np.asarray(q.data), want), "data")
    expect(same(vals(q, "time"), tw), "times", vals(q, "time"), tw)
    expect(same(vals(q, "distance"), x), "distance")
    expect(q.attrs.tag == "a" and q.attrs.network == "N1", "attrs")


def run_streams(shard, ctx, d):
    """Streams made by others: traces in any order, agreeing or not."""
    import obspy

    import dascore as dc

    for n, order in itertools.product((2, 3), (0, 1)):
        for idx in itertools.permutations(range(n)):
            with ctx.case(dict(op="stream-order", n=n, order=idx)):
                ctx.state(("stream-order", n, idx, order))
                trs = [obspy.Trace(data=np.arange(4) + 10 * i, header=dict(starttime=obspy.UTCDateTime(1.5e9), sampling_rate=[100.0, 3.0][order], gauge=float(i))) for i in idx]
                q = dc.io.obspy_to_patch(obspy.Stream(trs), dim="gauge")
                ctx.trans()
                expect(q.dims == ("gauge", "time"), "dims")
                for g, row in zip(vals(q, "gauge"), q.data):
                    expect(list(row) == list(np.arange(4) + 10 * g), "row", g)
                step = int(round(1e9 / [100.0, 3.0][order]))
                expect(same(vals(q, "time"), np.datetime64(1500000000, "s").astype("M8[ns]") + np.arange(4) * np.timedelta64(step, "ns")), "times", vals(q, "time"))
    for bad in ("start", "rate", "length", "missing"):
        for which in range(3):
            with ctx.case(dict(op="stream-bad", bad=bad, which=which)):
                ctx.state(("stream-bad", bad, which))
                trs = []
                for i in range(3):
                    hd = dict(starttime=obspy.UTCDateTime(100), sampling_rate=100.0, distance=float(i))
                    n = 4
                    if i == which:
                        if bad == "start":
                            hd["starttime"] += 0.5
                        elif bad == "rate":
                            hd["sampling_rate"] = 50.0
                        elif bad == "length":
                            n = 5
                        else:
                            hd.pop("distance")
                    trs.append(obspy.Trace(data=np.arange(n), header=hd))
                ctx.trans()
                try:
                    dc.io.obspy_to_patch(obspy.Stream(trs))
                except Exception:
                    continue
                expect(False, f"traces that differ in {bad} were combined")


def run_bad(shard, ctx, d):
    """What a format cannot hold is refused, it is not stored wrongly."""
    import dascore as dc

    T = np.array([0, 1, 4, 5]) * np.timedelta64(1000, "us") + T0
    data = np.arange(8.0).reshape(2, 4)
    ms = T0 + np.arange(4) * np.timedelta64(1000, "us")
    from dascore.core import get_coord

    def P(**kw):
        c = dict(distance=get_coord(data=np.arange(2.0), units="m"), time=get_coord(data=ms, units="s"))
        c.update(kw)
        return dc.Patch(data=data, coords=c, dims=("distance", "time"))

    cases = {
        "uneven-time": P(time=get_coord(data=T, units="s")),
        "complex": P().update(data=data + 1j),
        "one-dim": P().select(distance=0, samples=True).squeeze(),
        "three-dims": P().append_dims(other=2) if hasattr(dc.Patch, "append_dims") else None,
        "no-time": P().rename_coords(time="thing"),
        "two-patches": dc.spool([P(), P().update_attrs(tag="b")]),
        "fraction-of-us": P(time=get_coord(data=T0 + np.arange(4) * np.timedelta64(1500, "ns"), units="s")),
    }
    refuse = {
        "segy": ("uneven-time", "complex", "one-dim", "three-dims", "no-time", "two-patches", "fraction-of-us"),
        "rsf": ("uneven-time", "complex", "two-patches"),
        "wav": ("uneven-time", "complex", "one-dim", "three-dims", "no-time", "two-patches"),
        "obspy": ("uneven-time", "one-dim", "three-dims", "no-time"),
    }
    for fmt, names in refuse.items():
        for name in names:
            if cases[name] is None:
                continue
            with ctx.case(dict(op="refuse", fmt=fmt, name=name)):
                ctx.state(("refuse", fmt, name))
                ctx.trans()
                try:
                    if fmt == "obspy":
                        cases[name].io.to_obspy()
                    else:
                        dc.write(cases[name], d / f"{name}.{fmt}", fmt)
                except Exception:
                    continue
                expect(False, f"{fmt} stored a patch it cannot represent: {name}")


def run_fraction(shard, ctx, d):
    """The start of a SEG-Y trace between two seconds."""
    import dascore as dc

    with ctx.case(dict(op="segy-fraction"), key="segy-start-fraction"):
        ctx.state("segy-fraction")
        p, data, t, x = mkpatch(2, 3, 1000, STARTS[2], False, 0, "f4", dim="channel")
        f = d / "fraction.segy"
        if maybe(ctx, True, lambda: p.io.write(f, "segy")) is not None:
            (q,) = dc.read(f)
            ctx.trans()
            expect(same(vals(q, "time"), t), "the fraction of the start time is lost", vals(q, "time"), t)
