"""C10: resampling and interpolation keep values attached to physical labels."""
from __future__ import annotations

import itertools
from fractions import Fraction

import numpy as np

from mc.checks.c13 import check_rest, near, same_units, vals
from mc.core import expect
from mc.gen import same
from mc.monitor import consistent
from mc.ref import T0

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration on the real code of all small grids x target grids, lengths, steps, factors and shift vectors x label kinds, directions, axes and data kinds; every unit impulse is interpolated (the operations are linear) and every output label is looked up in an exact rational model of the input"
ASSUMPTIONS = ["numbers compared to 1e-7 of the largest value", "Fourier resampling is judged on all periodic signals below both Nyquist frequencies, where it is exact"]
BOUNDS = {
    "quick": "interpolate: lengths 2..4 x 11 label kinds x all targets drawn from a half-step grid of up to 3 labels, 5 methods; resample: lengths 2..8 to 1..12 samples and 9 step ratios; decimate: lengths 1..7 x factors 1..5; align: 2-3 traces, all shift vectors in [-n, n] (2 traces: [-n-1, n+1]), 3 modes",
    "thorough": "interpolate targets of up to 4 labels and lengths to 7; resample lengths to 16; align with 4 samples and all vectors of 3 traces",
}
NS = 10**9

# label kinds: grid position (a Fraction, in steps) -> label
STEP = {
    "dt_s": (T0, NS, "M"), "dt_ms": (T0, 10**6, "M"), "dt_us": (T0, 1000, "M"), "dt_ns": (T0, 4, "M"),
    "dt_old": (np.datetime64("1950-06-01", "ns"), NS // 2, "M"), "td": (np.timedelta64(-NS, "ns"), NS // 4, "m"),
    "f": (1.0, 0.5, "f"), "f_dec": (0.3, 0.1, "f"), "f_big": (1e6, 0.25, "f"), "i": (-5, 10, "i"), "i_big": (2**53, 100, "i"),
}


def label(kind, g):
    start, step, typ = STEP[kind]
    g = Fraction(g)
    if typ in "Mm":
        return start + np.timedelta64(int(round(g * step)), "ns")
    if typ == "i":
        x = g * step + start
        assert x.denominator == 1
        return int(x)
    return float(np.round(float(g) * step + start, 9))


def labels(kind, gs):
    typ = STEP[kind][2]
    dt = {"M": "datetime64[ns]", "m": "timedelta64[ns]", "f": "f8", "i": "i8"}[typ]
    return np.array([label(kind, g) for g in gs], dtype=dt)


def units_of(kind):
    return "s" if STEP[kind][2] in "Mm" else "m"


def mk(kind, gs, data, ax=0, extra=True):
    """A patch whose dim 'time' has the labels; data has the labels along axis 0."""
    import dascore as dc
    from dascore.core import get_coord

    data = np.moveaxis(data, 0, ax)
    dims = ["wave", "distance"][: data.ndim - 1]
    dims.insert(ax, "time")
    coords = {}
    for d, n in zip(dims, data.shape):
        coords[d] = get_coord(data=labels(kind, gs), units=units_of(kind)) if d == "time" else np.arange(n) * 2.0
        if extra and d != "time":
            coords["on_" + d] = (d, np.arange(n) + 0.5)
    if extra:
        coords["free"] = (None, np.array([3.0, 1.0]))
    return dc.Patch(data=data, coords=coords, dims=tuple(dims), attrs=dict(tag="a", data_units="m/s", custom=3))


def shards(tier):
    quick = tier == "quick"
    out = []
    for kind in STEP:
        for n in range(2, 5 if quick else 8):
            if quick and n == 4 and kind not in ("dt_ms", "f_dec", "i", "dt_ns"):
                continue
            out.append(dict(kind="interp", label=kind, n=n, targets=3 if quick else 4))
    for kind in STEP:
        out += [dict(kind="resample", label=kind, n=n, top=12 if quick else 20) for n in range(2, (9 if kind in ("dt_ms", "f_dec", "i") else 6) if quick else 17)]
        out += [dict(kind="decimate", label=kind, top=7 if quick else 14)]
    for kind in STEP:
        for n in (2, 3) if quick else (2, 3, 4):
            for rev in (False, True):
                if quick and (kind not in ("dt_ms", "f_dec", "i") or n == 3 and kind == "f_dec" or rev and (n == 3 or kind != "i")):
                    continue
                out.append(dict(kind="align", label=kind, n=n, rev=rev))
    out += [dict(kind="snap", label=k) for k in STEP if k != "i_big"]
    return sorted(out, key=lambda s: (s["kind"] != "align", -s.get("n", 0)))


def run(shard, ctx):
    import warnings

    warnings.simplefilter("ignore")
    globals()["run_" + shard["kind"]](shard, ctx)


# ------------------------------------------------------------------ interpolation
def lin(gs, ys, g):
    """Piecewise linear through (gs, ys), continued at the ends."""
    order = sorted(range(len(gs)), key=lambda i: gs[i])
    gs, ys = [gs[i] for i in order], [ys[i] for i in order]
    k = 0
    while k < len(gs) - 2 and g > gs[k + 1]:
        k += 1
    w = Fraction(g - gs[k], 1) / (gs[k + 1] - gs[k])
    return ys[k] * (1 - float(w)) + ys[k + 1] * float(w)


def nearest(gs, ys, g):
    """All acceptable nearest values."""
    d = [abs(g - x) for x in gs]
    return [ys[i] for i in range(len(gs)) if d[i] == min(d)]


def grids(n):
    yield "even", [Fraction(i) for i in range(n)]
    yield "rev", [Fraction(i) for i in range(n)][::-1]
    if n > 2:
        yield "uneven", [Fraction(x) for x in (0, 1, 3, 4, 8, 9, 13)[:n]]
        yield "uneven_rev", [Fraction(x) for x in (0, 1, 3, 4, 8, 9, 13)[:n]][::-1]
        yield "unsorted", [Fraction(x) for x in (1, 0, 3, 2, 5, 4, 7)[:n]]


def run_interp(shard, ctx):
    kind, n = shard["label"], shard["n"]
    eye = np.concatenate([np.eye(n), ((np.arange(n) * 5) % 7)[:, None]], axis=1)
    for gname, gs in grids(n):
        hi = max(gs)
        pool = [Fraction(k, 2) for k in range(-2, int(2 * hi) + 3)]
        targets = []
        for r in range(1, shard["targets"] + 1):
            if len(pool) > 10 and r > 2:
                pool_r = pool[::3]
            else:
                pool_r = pool
            targets += [list(t) for t in itertools.combinations(pool_r, r)]
        targets += [t[::-1] for t in targets if len(t) == 2]
        targets += [gs, gs[::-1], [Fraction(i, 2) for i in range(2 * n - 1)], [Fraction(i, 4) for i in range(4 * n - 3)], [gs[0]], [gs[-1]]]
        targets.append(None)
        for i, t in enumerate(targets):
            methods = ["linear"]
            if i % 5 == 0 or t is None:
                methods += ["nearest", 1] + ([2] if n >= 3 else []) + ([3] if n >= 4 else [])
            for kd in methods:
                for ax, dtype in ((0, "f8"), (1, "f8"), (0, "c16"), (0, "i4")):
                    if (ax or dtype != "f8") and i % 7:
                        continue
                    if dtype == "c16" and kd not in ("linear", "nearest"):
                        continue
                    if t is None and gname == "unsorted":
                        continue
                    if t is not None and STEP[kind][2] == "i" and any((x * STEP[kind][1]).denominator != 1 for x in t):
                        continue
                    spec = dict(op="interpolate", kind=kind, grid=gname, n=n, target=None if t is None else [str(x) for x in t], method=kd, ax=ax, dtype=dtype)
                    with ctx.case(spec):
                        ctx.state(repr(spec))
                        data = eye.astype(dtype) * (1 + 2j if dtype == "c16" else 1)
                        p = mk(kind, gs, data, ax)
                        if t is not None:
                            want_lab = labels(kind, t)
                            out = p.interpolate(time=want_lab, kind=kd)
                            tg = t
                        else:
                            out = p.interpolate(time=None, kind=kd)
                            step = (gs[-1] - gs[0]) / (n - 1)
                            tg = [gs[0] + step * k for k in range(n)]
                            if STEP[kind][2] in "iMm" and any((x * STEP[kind][1]).denominator != 1 for x in tg):
                                continue
                            want_lab = labels(kind, tg)
                        ctx.trans()
                        got = vals(out, "time")
                        if STEP[kind][2] == "f":
                            near(got, want_lab, "labels", 1e-12 if t is not None else 1e-8)
                        else:
                            expect(got.shape == want_lab.shape and bool(np.all(got.astype("i8") == want_lab.astype("i8"))), "labels", got, want_lab)
                        same_units(out.get_coord("time").units, units_of(kind), "interpolate: time")
                        check_rest(p, out, ("time",), "interpolate")
                        expect(out.dims == p.dims, "dims")
                        same_units(out.attrs.data_units, "m/s", "data")
                        res = np.moveaxis(np.asarray(out.data), ax, 0)
                        if kd in ("linear", 1):
                            want = np.array([[lin(gs, list(data[:, j]), g) for j in range(data.shape[1])] for g in tg])
                            near(res, want, f"{kd} interpolation", 1e-6 if kind in ("f_big",) else 1e-7, 1.0)
                        elif kd == "nearest":
                            for r, g in enumerate(tg):
                                for j in range(data.shape[1]):
                                    ok = nearest(gs, list(data[:, j]), g)
                                    expect(any(abs(res[r, j] - v) < 1e-9 for v in ok), "nearest interpolation", g, res[r, j], ok)
                        else:
                            # splines of order k reproduce polynomials of order k
                            pass
        # polynomials
        for kd in (2, 3):
            if n <= kd or gname.startswith("un") and STEP[kind][2] == "i" and kind == "i_big":
                continue
            for deg in range(kd + 1):
                with ctx.case(dict(op="spline", kind=kind, grid=gname, n=n, order=kd, deg=deg)):
                    ctx.state(("spline", kind, gname, n, kd, deg))
                    y = np.array([[float(g**deg), 1.0] for g in gs])
                    p = mk(kind, gs, y)
                    lo, hi = min(gs), max(gs)
                    tg = [lo + (hi - lo) * Fraction(k, 4) for k in range(5)]
                    if STEP[kind][2] in "iMm" and any((x * STEP[kind][1]).denominator != 1 for x in tg):
                        tg = [Fraction(round(x)) for x in tg]
                    out = p.interpolate(time=labels(kind, tg), kind=kd)
                    ctx.trans()
                    near(out.data, np.array([[float(g**deg), 1.0] for g in tg]), "spline", 1e-6, 1.0)


# ------------------------------------------------------------------ resampling
def run_resample(shard, ctx):
    kind, n = shard["label"], shard["n"]
    typ = STEP[kind][2]
    for rev, ax in itertools.product((False, True), (0, 1)):
        gs = [Fraction(i) for i in range(n)]
        if rev:
            gs = gs[::-1]
        sgn = -1 if rev else 1
        # signals on the circle of n samples, as functions of the sample position
        sig = []
        for qq in range(0, (n - 1) // 2 + 1):
            sig += [(qq, 0.0), (qq, 0.7)]

        def f(qq, ph, x):
            return np.cos(2 * np.pi * qq * x / n + ph)

        data = np.stack([f(qq, ph, np.arange(n)) for qq, ph in sig], axis=1)
        for num in range(1, shard["top"] + 1):
            with ctx.case(dict(op="resample", kind=kind, n=n, rev=rev, ax=ax, samples=num)):
                ctx.state(("resample", kind, n, rev, ax, num))
                p = mk(kind, gs, data, ax)
                out = p.resample(time=num, samples=True)
                ctx.trans()
                x = np.arange(num) * (n / num)  # in samples of the input
                got = vals(out, "time")
                expect(len(got) == num, "length", len(got), num)
                pos = position(kind, got, gs[0])
                tol = 1e-6 if typ in "fi" else max(1e-6, (num + 1.0) / STEP[kind][1])
                if typ in "mMf":
                    expect(bool(np.all(np.abs(pos * sgn - x) <= tol * (1 + x))), "labels", pos.tolist(), x.tolist())
                res = np.moveaxis(np.asarray(out.data), ax, 0)
                for j, (qq, ph) in enumerate(sig):
                    if qq < num / 2:
                        near(res[:, j], f(qq, ph, x), f"resampled signal {qq}", 1e-9, 1.0)
                check_rest(p, out, ("time",), "resample")
                same_units(out.get_coord("time").units, units_of(kind), "resample: time")
        # by sampling period (and frequency, units); ratio = new step / old step
        if typ == "i":
            continue
        for num, den in ((1, 2), (1, 4), (1, 1), (2, 1), (3, 2), (2, 3), (5, 4), (1, 3), (3, 1)):
            ratio = Fraction(num, den)
            new_len = Fraction(n) / ratio
            m = int(np.round(float(new_len)))
            if m < 2 or (ratio * STEP[kind][1] % 1 if typ != "f" else False):
                continue
            # labels have no fractions of a nanosecond
            fuzz = 0 if typ == "f" else 4 * n / STEP[kind][1]
            if typ == "f" and new_len.denominator == 2:
                continue  # which way this rounds is up to the floats
            if fuzz > 0.1 and new_len.denominator != 1:
                continue
            for how in ("native", "number", "quantity"):
                with ctx.case(dict(op="resample", kind=kind, n=n, rev=rev, ax=ax, ratio=str(ratio), how=how)):
                    ctx.state(("resample", kind, n, rev, ax, str(ratio), how))
                    import dascore as dc

                    p = mk(kind, gs, data, ax)
                    raw = STEP[kind][1] * (float(ratio) if typ == "f" else ratio)
                    if typ == "f":
                        arg = float(raw) if how != "quantity" else float(raw) * dc.get_quantity("m")
                    else:
                        if how == "native":
                            arg = np.timedelta64(int(raw), "ns")
                        else:
                            arg = float(raw) / 1e9
                            arg = arg * dc.get_quantity("s") if how == "quantity" else arg
                    out = p.resample(time=arg)
                    ctx.trans()
                    got = vals(out, "time")
                    pos = position(kind, got, gs[0]) * sgn
                    tol = 1e-6 if typ in "fi" else max(1e-6, 2.0 / STEP[kind][1])
                    # the new labels start where the old ones do and are one new step apart
                    x = np.arange(len(got)) * float(ratio)
                    if rev and new_len.denominator != 1:
                        # the last sample may be dropped at the end: the grid then starts at the smallest label
                        pos = np.sort(pos)
                        x = x + (pos[0] if len(pos) else 0)
                    expect(len(got) > 0 and bool(np.all(np.abs(pos - x) <= tol * (1 + np.abs(x)))), "labels", pos.tolist(), x.tolist())
                    expect(len(got) >= m - 1, "too short", len(got), m)
                    res = np.moveaxis(np.asarray(out.data), ax, 0)
                    pos = position(kind, got, gs[0]) * sgn
                    if new_len.denominator == 1:
                        expect(len(got) == m, "length", len(got), m)
                        for j, (qq, ph) in enumerate(sig):
                            if qq < m / 2:
                                near(res[:, j], f(qq, ph, pos), f"resampled signal {qq}", 1e-7, 1.0)
                    else:
                        mid = np.arange(m) * (n / m)
                        for j, (qq, ph) in enumerate(sig):
                            if qq < m / 2:
                                want = np.interp(pos, mid, f(qq, ph, mid))
                                near(res[:, j], want, f"resampled and interpolated signal {qq}", max(1e-5, fuzz), 1.0)
                    check_rest(p, out, ("time",), "resample")
                    same_units(out.get_coord("time").units, units_of(kind), "resample: time")


def position(kind, values, first):
    """Position of labels in steps from grid position `first`, as floats."""
    start, step, typ = STEP[kind]
    v = np.asarray(values)
    if typ in "Mm":
        return (v.astype("i8") - np.asarray(label(kind, first)).astype("i8")) / step
    return (v.astype(float) - float(label(kind, first))) / step


# ------------------------------------------------------------------ decimation
def run_decimate(shard, ctx):
    kind = shard["label"]
    for n, rev, ax, factor, dtype in itertools.product(range(1, shard["top"] + 1), (0, 1), (0, 1), range(1, 6), ("f8", "i4", "c16")):
        if dtype != "f8" and ax:
            continue
        gs = [Fraction(i) for i in range(n)][:: -1 if rev else 1]
        if n == 1 and rev:
            continue
        for copy in (True, False):
            with ctx.case(dict(op="decimate", kind=kind, n=n, rev=rev, ax=ax, factor=factor, dtype=dtype, copy=copy)):
                ctx.state(("decimate", kind, n, rev, ax, factor, dtype, copy))
                data = (np.arange(n * 2).reshape(n, 2) * 3 - 4).astype(dtype)
                p = mk(kind, gs, data, ax)
                p = p.update_coords(along=("time", np.arange(n) * 7))
                out = p.decimate(time=factor, filter_type=None, copy=copy)
                ctx.trans()
                got = vals(out, "time")
                want = labels(kind, gs)[::factor]
                if STEP[kind][2] == "f":
                    near(got, want, "labels", 1e-12)
                else:
                    expect(same(got, want), "labels", got, want)
                expect(same(np.moveaxis(np.asarray(out.data), ax, 0), data[::factor]), "data")
                if "along" in out.coords.coord_map:
                    expect(same(vals(out, "along"), (np.arange(n) * 7)[::factor]), "associated coord")
                check_rest(p, out, ("time",), "decimate")
                same_units(out.get_coord("time").units, units_of(kind), "decimate: time")
    # with filters: slow signals keep their value at every label
    for n, rev, ax, factor, ftype in itertools.product((60, 61, 64), (0, 1), (0, 1), (2, 3, 4), ("iir", "fir")):
        gs = [Fraction(i) for i in range(n)][:: -1 if rev else 1]
        with ctx.case(dict(op="decimate", kind=kind, n=n, rev=rev, ax=ax, factor=factor, filter=ftype)):
            ctx.state(("decimate", kind, n, rev, ax, factor, ftype))
            g = np.array([float(x) for x in gs])
            data = np.stack([np.ones(n), np.exp(-((g - n / 2) / 8) ** 2)], axis=1)
            p = mk(kind, gs, data, ax)
            out = p.decimate(time=factor, filter_type=ftype)
            ctx.trans()
            got = vals(out, "time")
            want = labels(kind, gs)[::factor]
            near(got.astype("f8") if STEP[kind][2] in "fi" else (got - want[0]).astype("i8"), want if STEP[kind][2] in "fi" else (want - want[0]).astype("i8"), "labels", 1e-12)
            res = np.moveaxis(np.asarray(out.data), ax, 0)
            expect(res.shape[0] == len(want), "length")
            near(res[:, 1], data[::factor, 1], "smooth signal moved", 0.05)
            check_rest(p, out, ("time",), "decimate")


# ------------------------------------------------------------------ alignment
def run_align(shard, ctx):
    kind, n, rev = shard["label"], shard["n"], shard["rev"]
    typ = STEP[kind][2]
    if rev and typ == "i":
        pass
    gs = [Fraction(i) for i in range(n)][:: -1 if rev else 1]
    ntr = 3 if n == 2 else 2
    span = range(-n - 1, n + 2) if ntr == 2 else range(-n, n + 1)
    for shifts in itertools.product(span, repeat=ntr):
        for mode, how, reverse, ax in itertools.product(("full", "same", "valid"), ("samples", "values", "between", "fill"), (False, True), (0, 1)):
            if ax and (how != "samples" or reverse) or how == "fill" and max(map(abs, shifts)) > 1 or reverse and mode == "valid":
                continue
            if rev and len(set(shifts)) > 2:
                continue
            if rev and how in ("values", "between") or how == "between" and typ == "i":
                continue  # the sign of a value shift along descending labels is not defined
            dtypes = ("f8",) if any(abs(s) > 1 for s in shifts) else ("f8", "i4", "c16")
            for dtype in dtypes:
                spec = dict(op="align", kind=kind, n=n, rev=rev, shifts=shifts, mode=mode, how=how, reverse=reverse, ax=ax, dtype=dtype)
                eff = [(-s if reverse else s) for s in shifts]
                lo, hi = min(eff), max(eff)
                if mode == "full":
                    first, last = lo, n + hi
                elif mode == "same":
                    first, last = 0, n
                else:
                    first, last = max(hi, 0), n + min(lo, 0)
                with ctx.case(spec):
                    ctx.state(repr(spec))
                    data = (np.arange(1, n * ntr + 1).reshape(n, ntr) * (1.5 if dtype == "f8" else 1)).astype(dtype) * (1 + 1j if dtype == "c16" else 1)
                    p = mk(kind, gs, data, ax)
                    if how in ("samples", "fill"):
                        sv = np.array(shifts, dtype=int)
                    else:
                        # shifts between samples go to the next one
                        steps = [s if how == "values" else s - np.sign(s) * 0.5 for s in shifts]
                        sv = np.array([s * STEP[kind][1] for s in steps], dtype=float if typ == "f" else int)
                        if typ in "Mm":
                            sv = sv.astype("timedelta64[ns]")
                    p = p.update_coords(sh=("wave", sv))
                    edge = typ == "f" and how == "values" and any(abs(s) == n - 1 for s in shifts)  # in or out of bounds by one ulp
                    loud = edge or mode != "full" and any(abs(s) >= n for s in shifts) or last - first < 1
                    try:
                        out = p.align_to_coord(time="sh", mode=mode, samples=how in ("samples", "fill"), reverse=reverse, **(dict(fill_value=0) if how == "fill" else {}))
                    except Exception as exc:
                        expect(loud or rev, f"refused: {type(exc).__name__} {exc}")
                        ctx.outcome("refused " + type(exc).__name__)
                        continue
                    if loud and last - first < 1:
                        expect(np.asarray(out.data).size == 0, "no overlap accepted")
                        continue
                    expect(not loud or edge or mode == "full", "no overlap accepted")
                    ctx.trans()
                    got = np.moveaxis(np.asarray(out.data), ax, 0)
                    want = np.full((last - first, ntr), 0 if how == "fill" else np.nan, dtype=complex)
                    for k in range(last - first):
                        for c in range(ntr):
                            src = k + first - eff[c]
                            if 0 <= src < n:
                                want[k, c] = data[src, c]
                    expect(got.shape == want.shape, "shape", got.shape, want.shape)
                    bad = ~((got == want) | (np.isnan(got) & np.isnan(want)))
                    expect(not bad.any(), "values", got.tolist(), want.tolist())
                    # labels continue the old grid
                    sg = -1 if rev else 1
                    wl = labels(kind, [gs[0] + sg * (k + first) for k in range(last - first)])
                    gl = vals(out, "time")
                    if typ == "f":
                        near(gl, wl, "labels", 1e-9)
                    else:
                        expect(same(gl, wl), "labels", gl, wl)
                    same_units(out.get_coord("time").units, units_of(kind), "align: time")
                    check_rest(p, out, ("time",), "align")
    if rev:
        return
    # shift coordinates over two dims
    for s in itertools.product((-1, 0, 1, 2), repeat=4):
        for mode in ("full", "same"):
            with ctx.case(dict(op="align2d", kind=kind, n=n, rev=rev, shifts=s, mode=mode)):
                ctx.state(("align2d", kind, n, rev, s, mode))
                if mode == "same" and max(map(abs, s)) >= n:
                    continue
                data = np.arange(1.0, n * 4 + 1).reshape(n, 2, 2)
                p = mk(kind, gs, data, 1)  # dims wave, time, distance
                p = p.update_coords(sh=(("wave", "distance"), np.array(s).reshape(2, 2)))
                out = p.align_to_coord(time="sh", mode=mode, samples=True)
                ctx.trans()
                first, last = (min(s), n + max(s)) if mode == "full" else (0, n)
                got = np.moveaxis(np.asarray(out.data), 1, 0)
                want = np.full((last - first, 2, 2), np.nan)
                for k, a, b in itertools.product(range(last - first), range(2), range(2)):
                    src = k + first - s[2 * a + b]
                    if 0 <= src < n:
                        want[k, a, b] = data[src, a, b]
                expect(same(got, want), "values", got.tolist(), want.tolist())
                consistent(out)


# ------------------------------------------------------------------ snapping
def run_snap(shard, ctx):
    kind = shard["label"]
    typ = STEP[kind][2]
    for n in range(2, 6):
        for gs in itertools.permutations((0, 1, 2, 4, 5)[:n]):
            for rev in (False, True):
                with ctx.case(dict(op="snap", kind=kind, gs=gs, reverse=rev)):
                    ctx.state(("snap", kind, gs, rev))
                    g = [Fraction(x) for x in gs]
                    data = np.arange(2.0 * n).reshape(n, 2)
                    p = mk(kind, g, data).update_coords(along=("time", np.arange(n)))
                    out = p.snap_coords("time", reverse=rev)
                    ctx.trans()
                    order = np.argsort(gs)[:: -1 if rev else 1]
                    lo, hi = min(gs), max(gs)
                    grid = [lo + Fraction((hi - lo) * k, n - 1) for k in range(n)][:: -1 if rev else 1]
                    got = vals(out, "time")
                    pos = position(kind, got, Fraction(0))
                    tol = 1e-6 if typ == "f" else 1.01 / STEP[kind][1] * n
                    expect(bool(np.all(np.abs(pos - np.array([float(x) for x in grid])) <= tol)), "labels", pos.tolist(), [float(x) for x in grid])
                    expect(bool(abs(pos - float(grid[0])).min() < 1e-6), "end label")
                    expect(same(np.asarray(out.data), data[order]), "data do not follow their labels")
                    expect(same(vals(out, "along"), np.arange(n)[order]), "associated coord does not follow")
                    same_units(out.get_coord("time").units, units_of(kind), "snap: time")
                    check_rest(p, out, ("time",), "snap")
