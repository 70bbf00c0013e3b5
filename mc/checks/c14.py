"""C14: chunk and merge conserve samples."""
from __future__ import annotations

import itertools
import warnings

import numpy as np

from mc.core import Mismatch, expect
from mc.gen import same
from mc.monitor import consistent
from mc.ref import T0

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of segment layouts x chunk parameters on the real MemorySpool, compared with an independent interval model (sets of grid labels per group and run)"
ASSUMPTIONS = ["segments lie on a common sampling grid and have at least two samples (one sample has no step); chunk lengths and overlaps are whole numbers of samples except in the fractional family", "forced bridging of gaps with a non-default tolerance changes labels by design and is only checked for sample conservation"]
BOUNDS = {
    "quick": "1-3 segments with starts 0..6 and lengths 2,3,5 (two orders each; every order in thorough), lengths 1..5, overlaps 0..2, keep_partial, merge; time, timedelta, float and int dims with awkward steps; dim orders; two-station and two-rate collections; attribute conflicts and policies; fractional lengths; extra coords",
    "thorough": "4 segments, starts 0..7, chunk lengths to 7",
}

STEPS = {
    "1s": np.timedelta64(1, "s").astype("m8[ns]"), "ns": np.timedelta64(333333333, "ns"), "7ns": np.timedelta64(7, "ns"), "f1": 1.0, "f.1": 0.1, "i2": 2,
    "td": np.timedelta64(4, "ms").astype("m8[ns]"), "f3": 1 / 3,
}
START = {"1s": T0, "ns": T0, "7ns": T0, "f1": 10.0, "f.1": 0.3, "i2": 4, "td": np.timedelta64(5, "s").astype("m8[ns]"), "f3": 100.0}


def shards(tier):
    out = []
    one = list(range(7))
    lens = (2, 3, 5)
    segs = [(s, n) for s in one for n in lens]
    n3 = 24 if tier == "quick" else 48
    out += [dict(kind="layout3", part=k, parts=n3, big=tier != "quick") for k in range(n3)]
    out += [dict(kind="layout2", kindkey=k) for k in STEPS]
    out += [dict(kind="single", kindkey=k, big=tier != "quick") for k in STEPS]
    out += [dict(kind="groups", part=k) for k in range(6)]
    out += [dict(kind="rates"), dict(kind="frac"), dict(kind="policy"), dict(kind="extra"), dict(kind="offgrid"), dict(kind="reject"), dict(kind="dtypes")]
    if tier != "quick":
        out += [dict(kind="layout4", part=k, parts=64) for k in range(64)]
    return out


def run(shard, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + shard["kind"]](shard, ctx)


# ------------------------------------------------------------ building
def seg(start, n, key="1s", order=0, val=0, dtype="f8", extra=False, dimname="time", **attrs):
    """A patch covering grid labels start..start+n-1; its values are functions of the label."""
    import dascore as dc

    step = STEPS[key]
    idx = np.arange(start, start + n)
    lab = START[key] + idx * step
    data = (idx[None, :] * 10 + np.arange(2)[:, None] + val).astype(dtype)
    coords = {dimname: lab, "chan": np.arange(2)}
    if extra:
        coords["on_time"] = (dimname, idx * 1.0)
        coords["on_chan"] = ("chan", np.array([5.0, 6.0]))
        coords["quality"] = (dimname, np.where(idx % 3 == 1, np.nan, idx + 0.5))
        coords["both"] = (("chan", dimname), data * 2.0)
    p = dc.Patch(data=data, coords=coords, dims=("chan", dimname), attrs=attrs)
    if extra:
        p = p.set_units(**{dimname: "s", "on_time": "m", "chan": "km"})
    return p.transpose() if order else p


def grid(patch, key, dimname="time"):
    """Grid indices of a patch's labels (must be exactly on the grid)."""
    lab = np.asarray(patch.get_array(dimname))
    step = STEPS[key]
    if lab.dtype.kind in "mM":
        d = (lab - START[key]).astype("m8[ns]").astype("i8")
        st = int(step.astype("i8"))
        expect(bool(np.all(d % st == 0)), "label off the grid", lab)
        return (d // st).tolist()
    d = (lab - START[key]) / step
    r = np.round(d)
    expect(bool(np.all(np.abs(d - r) < 1e-6)), "label off the grid", lab)
    return r.astype(int).tolist()


def runs(labels):
    out, cur = [], []
    for x in sorted(set(labels)):
        if cur and x != cur[-1] + 1:
            out.append(cur)
            cur = []
        cur.append(x)
    return out + ([cur] if cur else [])


def model(labels, L=None, O=0, partial=False):
    """The chunks a group's labels should give, in order."""
    out = []
    for r in runs(labels):
        n = len(r)
        if L is None:
            out.append(r)
            continue
        k = 0
        if n < L and not partial:
            continue
        while k < n:
            # a remainder of a single sample is never kept (see tests of chunk)
            if k + L <= n or (partial and k < n - 1):
                out.append(r[k:k + L])
            k += L - O
    return out


def check_patch(p, key, val=0, dimname="time"):
    g = grid(p, key, dimname)
    data = np.asarray(p.transpose("chan", dimname).data)
    want = np.array(g)[None, :] * 10 + np.arange(2)[:, None] + val
    expect(data.shape == want.shape and bool(np.all(data == want)), "values not at their labels", data.tolist(), want.tolist())
    consistent(p)
    return g


def check_table(spool, patches, key, dimname="time"):
    df = spool.get_contents()
    expect(len(df) == len(spool) == len(patches), "length vs contents", len(df), len(spool), len(patches))
    tol = 1e-9 if not isinstance(STEPS[key], np.timedelta64) else 0
    for i, p in enumerate(patches):
        row = df.iloc[i]
        for f, v in (("min", p.get_coord(dimname).min()), ("max", p.get_coord(dimname).max())):
            r = row[f"{dimname}_{f}"]
            if isinstance(STEPS[key], np.timedelta64):
                expect(r.to_numpy() == v, f"contents {dimname}_{f}", r, v)
            else:
                expect(abs(r - v) <= 1e-9, f"contents {dimname}_{f}", r, v)


def length(key, n, form="num"):
    st = STEPS[key]
    if isinstance(st, np.timedelta64):
        if form == "td":
            return st * n
        return (st * n) / np.timedelta64(1, "s")
    return st * n


def do_chunk(ctx, patches, key, labels_by_group, L=None, O=0, partial=False, form="num", dimname="time", vals=None, check=True, **kw):
    import dascore as dc
    from dascore.exceptions import ChunkError

    sp = dc.spool(patches)
    want = {g: model(lab, L, O, partial) for g, lab in labels_by_group.items()}
    args = {dimname: None if L is None else length(key, L, form)}
    if O:
        args["overlap"] = length(key, O, form)
    if partial:
        args["keep_partial"] = True
    ctx.trans()
    try:
        out = sp.chunk(**args, **kw)
    except ChunkError:
        expect(not any(want.values()), "ChunkError although chunks exist", want)
        ctx.outcome("too short")
        return None
    got = list(out)
    expect(any(want.values()), "nothing should be long enough", [p.shape for p in got])
    expect(len(got) == len(out), "iteration skipped patches", len(got), len(out))
    byg = {g: [] for g in want}
    for p in got:
        g = p.attrs.station
        byg[g].append(check_patch(p, key, 0 if vals is None else vals[g], dimname))
    # the order of separate runs is not promised, that inside a run is
    expect({k: sorted(v) for k, v in byg.items()} == {k: sorted(v) for k, v in want.items()}, "chunks", byg, want)
    for g, r in [(g, r) for g, v in labels_by_group.items() for r in runs(v)]:
        inr = [c for c in byg[g] if set(c) <= set(r)]
        expect(inr == sorted(inr), "chunks of a run out of order", byg[g])
    check_table(out, got, key, dimname)
    ctx.trace()
    ctx.outcome("merge" if L is None else f"chunk L{L} O{O} {partial}")
    return got


PARAMS = [(None, 0, False), (2, 0, False), (3, 0, True), (3, 1, False), (4, 2, True), (1, 0, False)]


def run_layout3(shard, ctx):
    starts = range(8) if shard["big"] else range(7)
    segs = [(s, n) for s in starts for n in (2, 3, 5)]
    combos = list(itertools.combinations_with_replacement(segs, 3))
    for num, combo in enumerate(combos):
        if num % shard["parts"] != shard["part"] or combo[0][0] != 0:
            continue
        # every order of the collection for merge; a rotating order for chunk parameters
        orders = sorted(set(itertools.permutations(combo)))
        if not shard["big"]:
            orders = [orders[num % len(orders)], orders[(num + 3) % len(orders)]]
        for oi, order in enumerate(orders):
            labels = [x for s, n in order for x in range(s, s + n)]
            pats = [seg(s, n) for s, n in order]
            ctx.state(order)
            params = PARAMS if shard["big"] else [PARAMS[0]] + [PARAMS[1 + (oi + num) % 5]]
            for L, O, part in params:
                with ctx.case(dict(segs=order, L=L, overlap=O, partial=part)):
                    do_chunk(ctx, pats, "1s", {"": labels}, L, O, part)


def run_layout4(shard, ctx):
    segs = [(s, n) for s in range(8) for n in (2, 4)]
    for num, combo in enumerate(itertools.combinations_with_replacement(segs, 4)):
        if num % shard["parts"] != shard["part"] or combo[0][0] != 0:
            continue
        for order in (combo, combo[::-1], (combo[2], combo[0], combo[3], combo[1])):
            labels = [x for s, n in order for x in range(s, s + n)]
            pats = [seg(s, n) for s, n in order]
            ctx.state(order)
            for L, O, part in PARAMS[:5]:
                with ctx.case(dict(segs=order, L=L, overlap=O, partial=part)):
                    do_chunk(ctx, pats, "1s", {"": labels}, L, O, part)


def run_layout2(shard, ctx):
    key = shard["kindkey"]
    for (s, n), m, o in itertools.product([(s, n) for s in range(1, 7) for n in (2, 5)], (4,), (0, 1)):
        order = [(0, m), (s, n)]
        labels = [x for a, b in order for x in range(a, a + b)]
        for rev in ((False, True) if not o else (False,)):
            pats = [seg(a, b, key, order=o) for i, (a, b) in enumerate(order)]
            pats = pats[::-1] if rev else pats
            for L, O, part in PARAMS:
                for form in ("num", "td") if isinstance(STEPS[key], np.timedelta64) else ("num",):
                    if form == "num" and key in ("ns", "7ns") and L is not None:
                        # seconds given as floats can not express these lengths exactly
                        continue
                    with ctx.case(dict(key=key, segs=order, rev=rev, order=o, L=L, overlap=O, partial=part, form=form)):
                        ctx.state((key, order, rev, o, L, O, part, form))
                        do_chunk(ctx, pats, key, {"": labels}, L, O, part, form)


def run_single(shard, ctx):
    """One long segment cut every way."""
    key = shard["kindkey"]
    N = 11 if not shard["big"] else 17
    for n in range(2, N + 1):
        p = seg(3, n, key)
        for L in range(1, (6 if not shard["big"] else 9)):
            for O in range(0, L):
                for part in (False, True):
                    form = "td" if key in ("ns", "7ns") else "num"
                    with ctx.case(dict(key=key, n=n, L=L, overlap=O, partial=part)):
                        ctx.state((key, n, L, O, part))
                        do_chunk(ctx, [p], key, {"": list(range(3, 3 + n))}, L, O, part, form)


def run_groups(shard, ctx):
    """Two stations interleaved in time never influence each other."""
    segs = [(s, n) for s in (0, 2, 4, 6) for n in (2, 3, 6)]
    A = list(itertools.combinations(segs, 2))
    B = [((s, n),) for s in (0, 1, 3, 5) for n in (3, 8)]
    for num, (a, b) in enumerate(itertools.product(A, B)):
        if num % 6 != shard["part"]:
            continue
        pats = [seg(s, n, station="A") for s, n in a] + [seg(s, n, station="B", val=5) for s, n in b]
        lab = {"A": [x for s, n in a for x in range(s, s + n)], "B": [x for s, n in b for x in range(s, s + n)]}
        for rev in (False, True):
            for L, O, part in PARAMS[:4]:
                with ctx.case(dict(a=a, b=b, rev=rev, L=L, overlap=O, partial=part)):
                    ctx.state((a, b, rev, L, O, part))
                    ps = pats[1:] + pats[:1] if rev else pats
                    do_chunk(ctx, ps, "1s", lab, L, O, part, vals={"A": 0, "B": 5})


def run_rates(shard, ctx):
    """Different sampling rates are never merged."""
    import dascore as dc

    for s, n in itertools.product((0, 3, 5, 8), (3, 5)):
        for L in (None, 2):
            with ctx.case(dict(rates=True, s=s, n=n, L=L)):
                ctx.trans()
                ctx.state(("rates", s, n, L))
                a = seg(0, 5, "1s", val=0)
                lab2 = T0 + (np.arange(n) * 500 + s * 1000).astype("m8[ms]").astype("m8[ns]")
                b = dc.Patch(data=np.full((2, n), -1.0), coords=dict(time=lab2, chan=np.arange(2)), dims=("chan", "time"))
                out = list(dc.spool([a, b]).chunk(time=None if L is None else 2))
                for p in out:
                    d = np.diff(np.asarray(p.get_array("time")))
                    expect(len(set(d.tolist())) <= 1, "mixed rates", d)
                na = sum(p.shape[1] for p in out if not np.any(np.asarray(p.data) == -1))
                nb = sum(p.shape[1] for p in out if np.any(np.asarray(p.data) == -1))
                if L is None:
                    expect((na, nb) == (5, n), "samples", na, nb)
                else:
                    expect((na, nb) == (4, n // 4 * 4), "samples", na, nb)
                ctx.trace()


def run_frac(shard, ctx):
    """Chunk lengths that are not whole numbers of samples must not lose samples between chunks."""
    import dascore as dc

    for key, n, num in itertools.product(("1s", "f1", "td", "i2"), (7, 10, 13), (1.5, 2.25, 2.5, 3.3, 4.75)):
        if key == "i2":
            if num * 2 % 1:
                continue
            size = int(num * 2)
        else:
            size = length(key, 1) * num
        with ctx.case(dict(key=key, n=n, length=num)):
            ctx.trans()
            ctx.state((key, n, num))
            p = seg(0, n, key)
            out = dc.spool([p]).chunk(time=size, keep_partial=True)
            got = [check_patch(x, key) for x in out]
            want, k = [], 0
            while k * num <= n - 2:
                want.append([i for i in range(n) if k * num <= i < (k + 1) * num])
                k += 1
            want = [w for w in want if w]
            expect(got == want or got == [w for w in want if len(w) > 1 or w != [n - 1]], "samples lost or repeated between chunks", got, want)
            ctx.trace()


def run_policy(shard, ctx):
    """Attribute conflicts inside a group: raise / drop / keep_first; group attributes always separate."""
    import dascore as dc
    from dascore.exceptions import AttributeMergeError, CoordMergeError, IncompatiblePatchError

    fields = {"instrument_id": ("x", "y"), "cable_id": ("1", "2"), "data_units": ("m", "s"), "gauge": (1.0, 2.0)}
    for (f, (va, vb)), pol, eq, L in itertools.product(fields.items(), ("raise", "drop", "keep_first"), (True, False), (None, 3)):
        with ctx.case(dict(field=f, policy=pol, equal=eq, L=L)):
            ctx.trans()
            ctx.state((f, pol, eq, L))
            a, b = seg(0, 4, **{f: va}), seg(4, 4, **{f: va if eq else vb})
            sp = dc.spool([a, b])
            try:
                out = list(sp.chunk(time=L, conflict=pol))
            except (CoordMergeError, AttributeMergeError, IncompatiblePatchError):
                expect(pol == "raise" and not eq, "raised although the policy allows merging")
                ctx.outcome("raise")
                continue
            expect(pol != "raise" or eq, "conflict merged silently under raise", [getattr(p.attrs, f, None) for p in out])
            got = [check_patch(p, "1s") for p in out]
            expect(got == model(range(8), L), "chunks", got)
            m = [p for p in out if {3, 4} <= set(grid(p, "1s"))][0]
            v = getattr(m.attrs, f, None)
            if f == "data_units":
                from dascore.units import get_quantity

                va_ = get_quantity(va)
                expect((v == va_) if (eq or pol == "keep_first") else v != get_quantity(vb), "merged attr", v)
            elif eq or pol == "keep_first":
                expect(v == va, "merged attr", v, va)
            else:
                expect(v not in (va, vb), "dropped attr still there", v)
            ctx.trace()
    for f in ("network", "station", "data_type", "tag"):
        for pol in ("raise", "drop", "keep_first"):
            with ctx.case(dict(group=f, policy=pol)):
                ctx.trans()
                a, b = seg(0, 4, **{f: "velocity" if f == "data_type" else "A"}), seg(4, 4, **{f: "strain" if f == "data_type" else "B"})
                out = list(dc.spool([a, b]).chunk(time=None, conflict=pol))
                expect(sorted(grid(p, "1s") for p in out) == [[0, 1, 2, 3], [4, 5, 6, 7]], "group merged", [grid(p, "1s") for p in out])
                ctx.trace()
    # different labels along another dimension are never mixed
    for pol in ("raise", "drop", "keep_first"):
        with ctx.case(dict(otherdim=True, policy=pol)):
            ctx.trans()
            a = seg(0, 4)
            b = seg(4, 4).update_coords(chan=np.array([7, 8]))
            try:
                out = list(dc.spool([a, b]).chunk(time=None, conflict=pol))
            except Exception:
                ctx.outcome("other dim: raise")
                continue
            for p in out:
                c = np.asarray(p.get_array("chan")).tolist()
                g = grid(p, "1s")
                expect((c == [0, 1] and max(g) < 4) or (c == [7, 8] and min(g) >= 4), "patches with other channels mixed", c, g)
            ctx.trace()


def run_extra(shard, ctx):
    """Associated coords travel with their samples."""
    import dascore as dc

    for (s, n), L, O, o in itertools.product([(0, 4), (2, 4), (4, 4), (6, 3)], (None, 2, 3), (0, 1), (0, 1)):
        if L is None and O:
            continue
        with ctx.case(dict(seg=[s, n], L=L, overlap=O, order=o)):
            ctx.trans()
            ctx.state(("extra", s, n, L, O, o))
            pats = [seg(0, 4, extra=True, order=o), seg(s, n, extra=True, order=o)]
            labels = list(range(4)) + list(range(s, s + n))
            out = list(dc.spool(pats).chunk(time=L, overlap=O or None, conflict="keep_first"))
            got = []
            for p in out:
                g = check_patch(p, "1s")
                got.append(g)
                if "on_time" in p.coords.coord_map:
                    expect(same(np.asarray(p.get_array("on_time")), np.array(g) * 1.0), "associated coord", p.get_array("on_time"), g)
                else:
                    raise Mismatch("associated coord lost")
                expect(same(np.asarray(p.get_array("on_chan")), np.array([5.0, 6.0])), "other coord")
                expect(same(np.asarray(p.get_array("quality")), np.array([np.nan if i % 3 == 1 else i + 0.5 for i in g])), "coord with nulls", p.get_array("quality"), g)
                two = np.asarray(p.get_array("both"))
                two = two if p.coords.dim_map["both"][0] == "chan" else two.T
                expect(same(two, np.asarray(p.transpose("chan", "time").data) * 2.0), "two dimensional coord", two)
                from dascore.units import get_quantity as q

                un = [p.get_coord(c).units for c in ("time", "on_time", "chan")]
                expect(un == [q("s"), q("m"), q("km")], "units lost", un)
            expect(got == model(labels, L, O), "chunks", got)
            ctx.trace()


def run_offgrid(shard, ctx):
    """Near-contiguous segments (gap within tolerance): every sample once, in order; snap=False keeps labels."""
    import dascore as dc

    for off, n, snap in itertools.product((0.6, 0.8, 1.2, 1.4, 1.49), (3, 5), (True, False)):
        with ctx.case(dict(offset=off, n=n, snap=snap)):
            ctx.trans()
            ctx.state((off, n, snap))
            a = seg(0, 4)
            ns = np.timedelta64(int(round((3 + off) * 1e9)), "ns")
            lab = T0 + ns + np.arange(n) * STEPS["1s"]
            b = dc.Patch(data=np.arange(2)[:, None] + 10.0 * (np.arange(n) + 4)[None], coords=dict(time=lab, chan=np.arange(2)), dims=("chan", "time"))
            out = list(dc.spool([b, a]).chunk(time=None, snap_coords=snap))
            expect(len(out) == 1, "not merged", len(out))
            want = np.arange(2)[:, None] + 10.0 * np.arange(4 + n)[None]
            expect(same(np.asarray(out[0].transpose("chan", "time").data), want), "samples", np.asarray(out[0].data).tolist())
            t = np.asarray(out[0].get_array("time"))
            true = np.concatenate([a.get_array("time"), lab])
            if snap:
                expect(t[0] == true[0] and np.all(np.abs(t - true) <= STEPS["1s"]), "snapped labels", t, true)
            else:
                expect(same(t, true), "labels", t, true)
            ctx.trace()
    for off, snap in itertools.product((1.51, 1.7, 2.0, 2.5, 10.0), (True, False)):
        with ctx.case(dict(gap=off, snap=snap)):
            ctx.trans()
            a = seg(0, 4)
            lab = T0 + np.timedelta64(int(round((3 + off) * 1e9)), "ns") + np.arange(4) * STEPS["1s"]
            b = dc.Patch(data=np.ones((2, 4)), coords=dict(time=lab, chan=np.arange(2)), dims=("chan", "time"))
            out = list(dc.spool([b, a]).chunk(time=None, snap_coords=snap))
            expect(len(out) == 2, "gap bridged", len(out))
            ctx.trace()
    for tol in (3, 6):
        for gap in (2, 3, 5, 7):
            with ctx.case(dict(tolerance=tol, gap=gap)):
                ctx.trans()
                out = list(dc.spool([seg(0, 4), seg(3 + gap, 4)]).chunk(time=None, tolerance=tol, snap_coords=False))
                got = [check_patch(p, "1s") for p in out]
                one, two = list(range(4)), list(range(3 + gap, 7 + gap))
                expect(got == ([one + two] if gap <= tol else [one, two]), "tolerance", got)
                ctx.trace()


def run_dtypes(shard, ctx):
    """Mixed dtypes upcast rather than truncate."""
    import dascore as dc

    for da, db in itertools.product(("i2", "i8", "f4", "f8", "c16"), repeat=2):
        for s in (2, 4):
            with ctx.case(dict(dtypes=[da, db], s=s)):
                ctx.trans()
                ctx.state((da, db, s))
                a, b = seg(0, 4, dtype=da), seg(s, 4, dtype=db)
                b = b.new(data=np.asarray(b.data) * 1 + (np.array(0.5) if db in ("f4", "f8") else np.array(0.5j) if db == "c16" else 0))
                out = dc.spool([a, b]).chunk(time=None)[0]
                want = np.concatenate([np.asarray(a.data), np.asarray(b.data)[:, 4 - s:]], axis=1)
                expect(np.asarray(out.data).dtype == want.dtype, "dtype", out.data.dtype, want.dtype)
                expect(same(np.asarray(out.data), want), "values", np.asarray(out.data).tolist(), want.tolist())
                ctx.trace()


def run_reject(shard, ctx):
    """Meaningless parameters raise instead of giving something."""
    import dascore as dc
    from dascore.exceptions import ParameterError

    p = seg(0, 8)
    bad = [dict(time=0), dict(time=-1), dict(time=2, chan=1), dict(), dict(time=None, overlap=1), dict(time=None, keep_partial=True), dict(time=2, overlap=3), dict(bob=2)]
    for kw in bad:
        with ctx.case(dict(bad=kw)):
            ctx.trans()
            ctx.state(str(kw))
            try:
                out = dc.spool([p]).chunk(**kw)
            except ParameterError:
                ctx.outcome("raise")
                continue
            raise Mismatch("accepted", kw, len(out))
