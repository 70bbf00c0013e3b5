"""C08: padding, missing-data, masking operations touch only the right samples."""
from __future__ import annotations

import itertools

import numpy as np

from mc.core import Mismatch, Skip, expect
from mc.gen import same
from mc.monitor import consistent
from mc.ref import T0, sec

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of pad widths, null placements, masks, ranges and mute regions over coordinate kinds and dim orders on the real code against element-wise Python definitions"
ASSUMPTIONS = ["slope mute boundaries are placed off the sample grid (membership exactly on a line is not decided); mutes are applied to finite data"]
BOUNDS = {
    "quick": "pad: 12 coord kinds x widths 0..3 on both ends x samples/units x expand x 2 dim orders x constants, two dims at once, fft/correlate lengths 1..12; dropna/fillna: all 729 null/inf/value patterns of 2x3; where: all 64 masks x operand kinds, patch conditions over layouts; 1-D mutes: all half-grid ranges; 2-D: 30 slope pairs x orders x directions; tapers",
    "thorough": "dropna/fillna 3x3 (19683 patterns), longer pads",
}


def _ns(*x):
    return np.array(x, "i8").view("m8[ns]")


COORDS = {
    "even": (np.arange(3) * 2.0 + 1, 2.0), "rev": (np.arange(3)[::-1] * 2.0 + 1, -2.0), "frac": (np.arange(4) * 0.1 + 0.3, 0.1),
    "int": (np.array([2, 4, 6]), 2), "intrev": (np.array([6, 4, 2]), -2), "dt": (T0 + np.arange(3) * sec(0.5), sec(0.5)),
    "dtrev": ((T0 + np.arange(3) * sec(0.5))[::-1].copy(), -sec(0.5)), "td": (_ns(0, 4, 8), _ns(4)[0]),
    "uneven": (np.array([1.0, 2.0, 6.0]), None), "shuffled": (np.array([6.0, 1.0, 2.0]), None), "dtuneven": (T0 + _ns(0, 5, 7), None),
    "intuneven": (np.array([1, 2, 6]), None),
}


def shards(tier):
    out = [dict(kind="pad", coord=c, w=4 if tier == "quick" else 6) for c in COORDS]
    out += [dict(kind="padfft"), dict(kind="pad2")]
    out += [dict(kind="nulls", order=o, part=k, shape=[2, 3], parts=3) for o in (0, 1) for k in range(3)]
    if tier != "quick":
        out += [dict(kind="nulls", order=0, part=k, shape=[3, 3], parts=27) for k in range(27)]
    out += [dict(kind="where", part=k) for k in range(4)] + [dict(kind="wherepatch", i=i) for i in range(6)]
    out += [dict(kind="mute1", coord=c) for c in COORDS if c not in ("shuffled", "dtuneven")]
    out += [dict(kind="mute2", dist=d, time=t) for d in ("up", "down") for t in ("up", "down")]
    out += [dict(kind="taper"), dict(kind="taperrange")]
    return out


def run(shard, ctx):
    globals()["run_" + shard["kind"]](shard, ctx)


def ids(shape, dtype="f8"):
    n = int(np.prod(shape))
    return (np.arange(n).reshape(shape) * 3 + 1).astype(dtype)


# ------------------------------------------------------------------ pad
def padded(data, axis, before, after, fill):
    shape = list(data.shape)
    shape[axis] += before + after
    out = np.full(shape, fill, dtype=data.dtype)
    idx = [slice(None)] * data.ndim
    idx[axis] = slice(before, before + data.shape[axis])
    out[tuple(idx)] = data
    return out


def ext(vals, step, before, after):
    return np.array([vals[0] - k * step for k in range(before, 0, -1)] + list(vals) + [vals[-1] + k * step for k in range(1, after + 1)], dtype=vals.dtype)


def check_labels(got, want, what):
    expect(len(got) == len(want), f"{what} length", len(got), len(want))
    if want.dtype.kind in "iu":
        expect(np.asarray(got).dtype.kind in "iu", f"{what} dtype kind", got.dtype)
    expect(same(got, want, 1e-12 if want.dtype.kind == "f" else 0), f"{what} labels", got, want)


def run_pad(shard, ctx):
    import dascore as dc

    c, step = COORDS[shard["coord"]]
    W = range(shard["w"])
    for dims, a, b in itertools.product((("x", "y"), ("y", "x"), ("x",)), W, W):
        shape = tuple(len(c) if d == "x" else 2 for d in dims)
        for dt, cv in (("f8", 0), ("f8", 7.5), ("i8", -3), ("f8", np.nan)):
            data = ids(shape, dt)
            coords = {"x": c, "on_x": ("x", np.arange(len(c)) * 1.0)}
            if "y" in dims:
                coords.update(y=np.array([10, 20]), on_y=("y", np.array([1.0, 2.0])))
            p = dc.Patch(data=data, coords=coords, dims=dims, attrs=dict(tag="a")).set_units(x="m" if c.dtype.kind not in "mM" else "s")
            ax = dims.index("x")
            want = padded(data, ax, a, b, cv)
            forms = [("samples", dict(x=(a, b)), True)]
            if a == b:
                forms.append(("single", dict(x=a), True))
            if step is not None:
                st = np.abs(step)
                if c.dtype.kind in "mM":
                    forms.append(("units", dict(x=(a * st, b * st)), False))
                    forms.append(("units-float", dict(x=(a * st / np.timedelta64(1, "s"), b * st / np.timedelta64(1, "s"))), False))
                else:
                    forms.append(("units", dict(x=(a * st, b * st)), False))
            for (fn, kw, samples), expand in itertools.product(forms, (True, False)):
                with ctx.case(dict(coord=shard["coord"], dims=dims, width=[a, b], dtype=dt, cv=str(cv), form=fn, expand=expand)):
                    ctx.trans()
                    ctx.state((shard["coord"], dims, a, b, dt, str(cv), fn, expand))
                    res = p.pad(constant_values=cv, samples=samples, expand_coords=expand, **kw)
                    expect(res.dims == dims, "dims")
                    expect(same(np.asarray(res.data), want), "padded data", np.asarray(res.data).tolist(), want.tolist())
                    xs = np.asarray(res.get_array("x"))
                    if expand and step is not None:
                        check_labels(xs, ext(c, step, a, b), "expanded")
                    elif a or b:
                        expect(len(xs) == len(c) + a + b, "length")
                        expect(same(xs[a:a + len(c)], c.astype(xs.dtype), 1e-12 if c.dtype.kind == "f" else 0), "old labels moved", xs, c)
                        new = np.concatenate([xs[:a], xs[a + len(c):]])
                        expect(bool(np.all(np.isnat(new) if xs.dtype.kind in "mM" else np.isnan(new))), "labels invented for padding", xs)
                    expect(res.get_coord("x").units == p.get_coord("x").units, "units lost", res.get_coord("x").units)
                    if "y" in dims:
                        expect(same(np.asarray(res.get_array("y")), np.array([10, 20])) and same(np.asarray(res.get_array("on_y")), np.array([1.0, 2.0])), "other dim")
                    expect(res.attrs.tag == "a", "attrs")
                    if expand:
                        consistent(res)
                    ctx.trace()
                    ctx.outcome(fn)


def smooth5(n):
    while True:
        m = n
        for f in (2, 3, 5, 7, 11):
            while m % f == 0:
                m //= f
        if m == 1:
            return n
        n += 1


def run_padfft(shard, ctx):
    import dascore as dc

    for n, mode, rev in itertools.product(range(1, 41), ("fft", "correlate"), (False, True)):
        with ctx.case(dict(n=n, mode=mode, rev=rev)):
            ctx.trans()
            ctx.state((n, mode, rev))
            t = T0 + np.arange(n) * sec(0.25)
            if n == 1:
                continue
            t = t[::-1].copy() if rev else t
            p = dc.Patch(data=ids((n,)), coords=dict(time=t), dims=("time",))
            res = p.pad(time=mode)
            need = n if mode == "fft" else 2 * n - 1
            m = res.shape[0]
            expect(m >= need and m <= smooth5(need) * 2, "padded length", m, need)
            expect(same(np.asarray(res.data)[:n], p.data) and not np.any(np.asarray(res.data)[n:]), "data moved or padding not zero")
            check_labels(np.asarray(res.get_array("time")), ext(t, t[1] - t[0], 0, m - n), "fft")
            ctx.trace()


def run_pad2(shard, ctx):
    """Two dimensions in one call."""
    import dascore as dc

    names = [k for k in COORDS if COORDS[k][1] is not None]
    for kx, ky in itertools.product(names, names):
        (cx, sx), (cy, sy) = COORDS[kx], COORDS[ky]
        p = dc.Patch(data=ids((len(cx), len(cy))), coords=dict(x=cx, y=cy), dims=("x", "y"))
        for wx, wy in (((1, 0), (0, 2)), ((2, 1), (1, 1)), ((0, 0), (3, 0))):
            with ctx.case(dict(x=kx, y=ky, wx=wx, wy=wy)):
                ctx.trans()
                ctx.state((kx, ky, wx, wy))
                res = p.pad(y=wy, x=wx, samples=True, constant_values=5)
                want = padded(padded(p.data, 0, *wx, 5), 1, *wy, 5)
                expect(same(np.asarray(res.data), want), "data")
                check_labels(np.asarray(res.get_array("x")), ext(cx, sx, *wx), "x")
                check_labels(np.asarray(res.get_array("y")), ext(cy, sy, *wy), "y")
                consistent(res)
                ctx.trace()


# ------------------------------------------------------------------ dropna / fillna
def run_nulls(shard, ctx):
    import dascore as dc

    shape = tuple(shard["shape"])
    n = int(np.prod(shape))
    dims = ("x", "y") if not shard["order"] else ("y", "x")
    labs = {"x": np.arange(5) * 2.0 + 1, "y": T0 + _ns(0, 5, 7, 20, 21)}
    coords = {d: labs[d][:s] for d, s in zip(dims, shape)}
    coords["on_" + dims[0]] = (dims[0], np.arange(shape[0]) * 1.0)
    base = ids(shape)
    alpha = (None, np.nan, np.inf)
    for num, word in enumerate(itertools.product(range(3), repeat=n)):
        if num % shard["parts"] != shard["part"]:
            continue
        data = base.copy()
        for i, w in enumerate(word):
            if w:
                data.reshape(-1)[i] = alpha[w] if i % 2 or w == 1 else -np.inf
        p = dc.Patch(data=data, coords=coords, dims=dims, attrs=dict(tag="a"))
        nul = {True: ~np.isfinite(data), False: np.isnan(data)}
        with ctx.case(dict(word=word, dims=dims, shape=shape)):
            ctx.state((word, dims, shape))
            for inf in (True, False):
                for ax, d in enumerate(dims):
                    for how in ("any", "all"):
                        ctx.trans()
                        f = np.any if how == "any" else np.all
                        keep = [not f(np.take(nul[inf], i, ax)) for i in range(shape[ax])]
                        want = np.compress(keep, data, ax)
                        if not any(keep):
                            try:
                                res = p.dropna(d, how=how, include_inf=inf)
                            except Exception:
                                ctx.outcome("all dropped: raise")
                                continue
                            expect(res.shape[ax] == 0, "everything should be dropped", res.shape)
                            ctx.outcome("all dropped")
                            continue
                        res = p.dropna(d, how=how, include_inf=inf)
                        expect(same(np.asarray(res.data), want), f"dropna {d} {how} inf={inf}", np.asarray(res.data).tolist(), want.tolist())
                        for k, dd in enumerate(dims):
                            lab = coords[dd][np.array(keep)] if dd == d else coords[dd]
                            check_labels(np.asarray(res.get_array(dd)), lab, f"dropna {d}: {dd}")
                        oc = "on_" + dims[0]
                        if oc in res.coords.coord_map:
                            o = coords[oc][1]
                            check_labels(np.asarray(res.get_array(oc)), o[np.array(keep)] if d == dims[0] else o, oc)
                        consistent(res)
                        ctx.trace()
                for v in (0, 2.5):
                    ctx.trans()
                    want = data.copy()
                    want[nul[inf]] = v
                    res = p.fillna(v, include_inf=inf)
                    expect(same(np.asarray(res.data), want), "fillna", np.asarray(res.data).tolist(), want.tolist())
                    expect(res.coords == p.coords and same(p.data, data), "fillna coords/input")
                    ctx.trace()


# ------------------------------------------------------------------ where
def run_where(shard, ctx):
    import dascore as dc

    for dims in (("x", "y"), ("y", "x")):
        shape = (2, 3)
        labs = {"x": np.arange(3) * 2.0 + 1, "y": np.arange(3)[::-1] * 1.0}
        coords = {d: labs[d][:s] for d, s in zip(dims, shape)}
        data = ids(shape)
        p = dc.Patch(data=data, coords=coords, dims=dims)
        others = {"default": None, "zero": 0, "float": 2.5, "arr": -data, "row": -data[0], "col": -data[:, :1], "patch": p * -1, "patchT": (p * -1).transpose(),
                  "0d": np.array(4.0), "inf": np.inf}
        for mask in range(64):
            if mask % 4 != shard["part"]:
                continue
            cond = np.array([bool(mask >> i & 1) for i in range(6)]).reshape(shape)
            conds = {"array": cond, "list": cond.tolist(), "patch": p.new(data=cond), "patchT": p.new(data=cond).transpose()}
            for (cn, cv), (on, ov) in itertools.product(conds.items(), others.items()):
                with ctx.case(dict(dims=dims, mask=mask, cond=cn, other=on)):
                    ctx.trans()
                    ctx.state((dims, mask, cn, on))
                    res = p.where(cv) if on == "default" else p.where(cv, ov)
                    o = np.nan if on == "default" else -data if on.startswith("patch") else ov
                    want = np.where(cond, data, o)
                    got = res.transpose(*dims)
                    expect(same(np.asarray(got.data, dtype=float), want.astype(float)), "where", np.asarray(got.data).tolist(), want.tolist())
                    for d in dims:
                        check_labels(np.asarray(got.get_array(d)), coords[d], d)
                    ctx.trace()
    for nm, c in (("int", ids((2, 3), "i8")), ("float", ids((2, 3)))):
        with ctx.case(dict(reject=nm)):
            try:
                p.where(c)
            except ValueError:
                continue
            raise Mismatch("non-boolean condition accepted")


LAY = [(0, 1, 2), (2, 1, 0), (1, 2), (0, 2), (1, 0, 2), (1,)]


def run_wherepatch(shard, ctx):
    import dascore as dc

    g = LAY[shard["i"]]
    x = np.arange(4) * 2.0

    def mk(gs, data, extra=None):
        return dc.Patch(data=data, coords=dict(x=x[list(gs)]), dims=("x",))

    for gc, go in itertools.product(LAY, [None, *LAY]):
        for mask in range(2 ** len(gc)):
            with ctx.case(dict(patch=g, cond=gc, other=go, mask=mask)):
                ctx.trans()
                ctx.state((g, gc, go, mask))
                p = mk(g, np.array([10.0 + k for k in g]))
                cond = {k: bool(mask >> i & 1) for i, k in enumerate(gc)}
                c = mk(gc, np.array([cond[k] for k in gc]))
                o = 0 if go is None else mk(go, np.array([100.0 + k for k in go]))
                labs = set(g) & set(gc) & (set(go) if go is not None else set(g))
                if not labs:
                    continue
                res = p.where(c, o)
                got = {int(a / 2): float(v) for a, v in zip(res.get_array("x"), res.data)}
                want = {k: (10.0 + k if cond[k] else (0 if go is None else 100.0 + k)) for k in labs}
                expect(got == want, "where by label", got, want)
                ctx.trace()


# ------------------------------------------------------------------ mute
def run_mute1(shard, ctx):
    import dascore as dc

    c, step = COORDS[shard["coord"]]
    lo, hi = np.min(c), np.max(c)
    is_time = c.dtype.kind in "mM"
    srt = np.sort(c)
    qs = []
    for i, v in enumerate(srt):
        qs.append(v)
        if i + 1 < len(srt):
            qs.append(v + (srt[i + 1] - v) / 2 if not is_time else v + (srt[i + 1] - v) // 2)
    for dims in (("x", "y"), ("y", "x"), ("x",)):
        shape = tuple(len(c) if d == "x" else 2 for d in dims)
        data = ids(shape)
        coords = {"x": c}
        if "y" in dims:
            coords["y"] = np.array([10.0, 20.0])
        p = dc.Patch(data=data, coords=coords, dims=dims)
        ax = dims.index("x")
        for a, b, inv, rel in itertools.product([None, *qs], [None, *qs], (False, True), (False, True)):
            if a is None and b is None or (a is not None and b is not None and a > b):
                continue
            with ctx.case(dict(coord=shard["coord"], dims=dims, lim=[str(a), str(b)], invert=inv, relative=rel)):
                ctx.trans()
                ctx.state((shard["coord"], dims, str(a), str(b), inv, rel))
                inside = np.ones(len(c), bool)
                if a is not None:
                    inside &= c >= a
                if b is not None:
                    inside &= c <= b
                if rel:
                    arg = tuple(None if v is None else (v - lo) for v in (a, b))
                else:
                    arg = (a, b)
                res = p.line_mute(x=arg, invert=inv, relative=rel)
                mute = ~inside if inv else inside
                sh = [1] * len(dims)
                sh[ax] = len(c)
                want = np.where(mute.reshape(sh), 0, data)
                expect(same(np.asarray(res.data, dtype=float), want), "muted samples", np.asarray(res.data).tolist(), want.tolist())
                expect(res.coords == p.coords, "coords changed")
                ctx.trace()


def run_mute2(shard, ctx):
    import dascore as dc

    nd, nt = 5, 6
    d = np.arange(nd) * 10.0 + 100
    t = T0 + np.arange(nt) * sec(1)
    d = d[::-1].copy() if shard["dist"] == "down" else d
    t = t[::-1].copy() if shard["time"] == "down" else t
    slopes = [0, 1.7, 4.3, 7.1, 11.3, 17.9, 33.0, 61.0, np.inf]
    od = np.abs(d - d[0])
    ot = np.abs((t - t[0]) / np.timedelta64(1, "s"))
    with np.errstate(divide="ignore", invalid="ignore"):
        sl = od[:, None] / ot[None, :]
    data = np.ones((nd, nt)) * 3
    p0 = dc.Patch(data=data, coords=dict(distance=d, time=t), dims=("distance", "time"))
    for (a, b), order, inv, swap in itertools.product(itertools.combinations(slopes, 2), ("dt", "td"), (False, True), (False, True)):
        if a == 0 and b == np.inf:
            continue
        with ctx.case(dict(slopes=[a, b], order=order, invert=inv, swap=swap, shard=shard)):
            ctx.trans()
            ctx.state((a, b, order, inv, swap, shard["dist"], shard["time"]))
            p = p0 if order == "dt" else p0.transpose()
            if swap:
                inva = [np.inf if x == 0 else 0 if x == np.inf else 1 / x for x in (a, b)]
                res = p.slope_mute(slopes=inva, dims=("time", "distance"), invert=inv)
            else:
                res = p.slope_mute(slopes=(a, b), invert=inv)
            got = np.asarray(res.transpose("distance", "time").data)
            inside = (sl > a) & (sl < b)
            edge = np.zeros_like(inside)
            edge[0, 0] = True  # the origin has no slope
            if a == 0:
                edge[0, :] = True
            if b == np.inf:
                edge[:, 0] = True
            mute = ~inside if inv else inside
            want = np.where(mute, 0, data)
            bad = (got != want) & ~edge
            expect(not bad.any(), "slope mute region", (got == 0).astype(int).tolist(), (want == 0).astype(int).tolist())
            ctx.trace()
    # lines given explicitly: any kwarg order, any dim order, absolute or relative to either end
    if shard["dist"] == "up" and shard["time"] == "up":
        for order, rel, end, kworder in itertools.product(("dt", "td"), (True, False), (False, True), ("dt", "td")):
            for v in (2.3, 7.7, 17.3):
                with ctx.case(dict(lines=v, order=order, relative=rel, end=end, kworder=kworder)):
                    ctx.trans()
                    p = p0 if order == "dt" else p0.transpose()
                    # region between t-axis line distance=d0 and line with slope v from the origin
                    T, D = float(ot[-1]), float(od[-1])
                    if rel:
                        tt = [0.0, T]
                        dd = [0.0, v * T]
                        if end:  # second time point counted from the end of the coordinate
                            tt, dd = [0.0, -0.001], [0.0, v * (T - 0.001)]
                        kw = dict(time=(tt, tt), distance=([0.0, 0.0], dd))
                    else:
                        tt = [t[0], t[-1]]
                        kw = dict(time=(tt, tt), distance=([d[0], d[0]], [d[0], d[0] + v * T]))
                    if kworder == "dt":
                        kw = dict(distance=kw["distance"], time=kw["time"])
                    res = p.line_mute(relative=rel, **kw)
                    got = np.asarray(res.transpose("distance", "time").data)
                    inside = sl < v
                    want = np.where(inside, 0, data)
                    bad = got != want
                    bad[0, :] = False
                    expect(not bad.any(), "line mute region", (got == 0).astype(int).tolist(), (want == 0).astype(int).tolist())
                    ctx.trace()


# ------------------------------------------------------------------ taper
def run_taper(shard, ctx):
    import dascore as dc

    for n, dims, win in itertools.product((10, 11, 21), (("x", "y"), ("y", "x"), ("x",)), ("hann", "triang", "cos")):
        shape = tuple(n if d == "x" else 2 for d in dims)
        coords = {"x": np.arange(n) * 2.0 + 5}
        if "y" in dims:
            coords["y"] = np.array([1.0, 2.0])
        data = np.full(shape, 4.0)
        p = dc.Patch(data=data, coords=coords, dims=dims).set_units(x="m")
        ax = dims.index("x")
        L = (n - 1) * 2.0
        for a, b in itertools.product((None, 0.1, 0.2, 0.3, 0.5), (None, 0.1, 0.2, 0.4)):
            if a is None and b is None:
                continue
            with ctx.case(dict(n=n, dims=dims, win=win, taper=[a, b])):
                ctx.trans()
                ctx.state((n, dims, win, a, b))
                na = 0 if a is None else sum(2.0 * i <= a * L + 1e-9 for i in range(n))
                nb = 0 if b is None else sum(2.0 * i <= b * L + 1e-9 for i in range(n))
                if na + nb > n:
                    continue
                res = p.taper(window_type=win, x=(a, b))
                from dascore.units import get_quantity as q

                if a is not None and b is not None:
                    r2 = p.taper(window_type=win, x=(a * 100 * q("percent"), b * 100 * q("percent")))
                    expect(same(r2.data, res.data), "percent differs from fraction")
                    r3 = p.taper(window_type=win, x=(a * L * q("m"), b * L * q("m")))
                    expect(same(r3.data, res.data), "absolute differs from fraction")
                got = np.moveaxis(np.asarray(res.data), ax, 0).reshape(n, -1)
                expect(bool(np.all(got == got[:, :1])), "taper not the same for all traces")
                w = got[:, 0] / 4.0
                mid = w[na: n - nb]
                expect(bool(np.all(mid == 1.0)), "samples outside the taper changed", w.tolist(), na, nb)
                expect(bool(np.all(w[:na] <= 1) and np.all(np.diff(w[:na]) >= -1e-12)), "start taper not rising", w.tolist())
                expect(bool(np.all(w[n - nb:] <= 1) and np.all(np.diff(w[n - nb:]) <= 1e-12)), "end taper not falling", w.tolist())
                expect(na < 2 or w[0] < 0.5, "start not tapered", w.tolist())
                expect(nb < 2 or w[-1] < 0.5, "end not tapered", w.tolist())
                ctx.trace()


def run_taperrange(shard, ctx):
    import dascore as dc

    n = 12
    for dims, inv in itertools.product((("x", "y"), ("y", "x"), ("x",)), (False, True)):
        shape = tuple(n if d == "x" else 2 for d in dims)
        coords = {"x": np.arange(n) * 2.0 + 5}
        if "y" in dims:
            coords["y"] = np.array([1.0, 2.0])
        p = dc.Patch(data=np.full(shape, 4.0), coords=coords, dims=dims)
        ax = dims.index("x")
        for q in itertools.combinations_with_replacement(range(0, n, 2), 4):
            if q[1] == q[2] and inv:
                continue
            with ctx.case(dict(dims=dims, inds=q, invert=inv)):
                ctx.trans()
                ctx.state((dims, q, inv))
                res = p.taper_range(x=q, samples=True, invert=inv)
                byval = p.taper_range(x=tuple(5 + 2.0 * i for i in q), invert=inv)
                rel = p.taper_range(x=tuple(2.0 * i for i in q), relative=True, invert=inv)
                expect(same(res.data, byval.data), "samples vs values", np.asarray(res.data).tolist(), np.asarray(byval.data).tolist())
                expect(same(res.data, rel.data), "samples vs relative")
                got = np.moveaxis(np.asarray(res.data), ax, 0).reshape(n, -1)
                expect(bool(np.all(got == got[:, :1])), "not the same for all traces")
                w = got[:, 0] / 4.0
                if q[1] == q[2] or inv:
                    if q[2] > q[1] and inv:
                        expect(bool(np.all(w[q[1]:q[2]] == 0)), "inverted inside", w.tolist())
                        expect(bool(np.all(w[:q[0]] == 1) and np.all(w[q[3]:] == 1)), "inverted outside", w.tolist())
                else:
                    expect(bool(np.all(w[q[1]:q[2]] == 1)), "inside changed", w.tolist())
                    expect(bool(np.all(w[:q[0]] == 0) and np.all(w[q[3]:] == 0)), "outside not zero", w.tolist())
                    expect(bool(np.all(np.diff(w[q[0]:q[1]]) >= 0) and np.all(np.diff(w[q[2]:q[3]]) <= 0)), "tapers not monotonic", w.tolist())
                ctx.trace()
