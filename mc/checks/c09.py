"""C09: rolling and windowed computations equal the window they describe."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc.checks.c10 import STEP, labels, mk, units_of
from mc.checks.c13 import check_rest, same_units, vals
from mc.core import expect
from mc.gen import same

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration on the real code of all small lengths x windows x steps x centrings x engines x axes x data (all 0/1 vectors of the length, which decide order statistics by threshold decomposition, all unit impulses, which decide the linear filters, and NaN at every position), each output sample compared with a direct evaluation of the window at its label"
ASSUMPTIONS = ["numbers compared to 1e-7 of the largest value", "centred windows follow pandas: the extra sample of an even window is before the label", "edge samples of the approximate hampel filter and of bottleneck moving windows follow their documented own padding and are only bounded"]
BOUNDS = {
    "quick": "rolling: lengths 1..6 x all windows x all steps x center x engines (None, numpy, pandas) x 7 aggregates x 1-D/2-D/3-D x axes; windows in samples, label units, quantities, percent and overlap on 5 label kinds in both directions; median/gaussian/savgol/hampel/moving windows/stalta/kurtosis on lengths to 9, all odd/even windows, 5 edge modes",
    "thorough": "lengths to 9 for rolling, to 14 for filters, all label kinds",
}
KINDS = ("dt_ms", "f_dec", "i", "td", "dt_s")


def shards(tier):
    quick = tier == "quick"
    out = []
    for n in range(2, 7 if quick else 10):
        for shape in ("1d", "2d0", "2d1", "3d", "one0", "one1"):
            out.append(dict(kind="roll", n=n, shape=shape))
    for lab in KINDS if quick else tuple(STEP):
        out.append(dict(kind="spec", label=lab, n=7 if quick else 11))
    out += [dict(kind="filters", n=n, which=w) for n in range(2, 8 if quick else 12) for w in ("median", "gauss", "savgol")]
    out += [dict(kind="hampel", n=n) for n in range(3, 9 if quick else 12)]
    out += [dict(kind="moving", n=n) for n in range(1, 8 if quick else 11)]
    out += [dict(kind="kurt", n=n) for n in range(2, 8 if quick else 12)]
    return out


def run(shard, ctx):
    import warnings

    warnings.simplefilter("ignore")
    globals()["QUICK"] = ctx.tier == "quick"
    globals()["run_" + shard["kind"]](shard, ctx)


AGG = {
    "mean": lambda v: v.sum(0) / len(v), "sum": lambda v: v.sum(0), "min": lambda v: v.min(0), "max": lambda v: v.max(0),
    "median": lambda v: np.median(v, axis=0), "std": lambda v: np.sqrt(np.maximum(((v - v.mean(0)) ** 2).mean(0), 0)),
    "ptp": lambda v: v.max(0) - v.min(0),
}


def close(a, b, what, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, f"{what}: shape", a.shape, b.shape)
    expect(bool(np.all(np.isnan(a) == np.isnan(b))), f"{what}: NaNs differ", a.tolist(), b.tolist())
    ok = ~np.isnan(b)
    inf = np.isinf(b)
    expect(bool(np.all(a[inf] == b[inf])), f"{what}: infinities", a.tolist(), b.tolist())
    ok &= ~inf
    scale = max(1e-30, float(np.max(np.abs(b[ok]))) if ok.any() else 0)
    expect(bool(np.all(np.abs(a[ok] - b[ok]) <= tol * scale)), f"{what}: values differ", a.tolist(), b.tolist())


def reference(data, w, step, center, agg):
    """data has the rolled axis first."""
    n = len(data)
    off = (w - 1) // 2 if center else 0
    dt = complex if data.dtype.kind == "c" else float
    out = np.full((math.ceil(n / step), *data.shape[1:]), np.nan, dtype=dt)
    for k, i in enumerate(range(0, n, step)):
        lo, hi = i - (w - 1) + off, i + off
        if lo >= 0 and hi < n:
            out[k] = AGG[agg](data[lo : hi + 1].astype(dt))
    return out


def rolled(roller, agg):
    return roller.apply(np.ptp) if agg == "ptp" else getattr(roller, agg)()


def all_binary(n):
    return np.array(list(itertools.product((0, 1), repeat=n)), dtype=float).T


def batch(n):
    """All 0/1 columns plus some with values and NaN at each position."""
    cols = [all_binary(n)]
    base = ((np.arange(n) * 37 + 11) % 23 - 9).astype(float)
    cols.append(base[:, None])
    for i in range(n):
        c = base.copy()
        c[i] = np.nan
        cols.append(c[:, None])
    return np.concatenate(cols, axis=1)


def same_labels(out, p, step):
    a, b = vals(out, "time"), vals(p, "time")[::step]
    if a.dtype.kind == "f":
        expect(a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-12 * np.maximum(np.abs(b), 1))), "labels", a, b)
    else:
        expect(same(a, b), "labels", a, b)


def run_roll(shard, ctx):
    n, shape = shard["n"], shard["shape"]
    base = ((np.arange(n) * 37 + 11) % 23 - 9).astype(float)
    if shape == "1d":
        nanned = base.copy()
        nanned[n // 2] = np.nan
        datas = [("f8", base), ("nan", nanned), ("i8", base.astype("i8")), ("f4", base.astype("f4")), ("c16", base + 1j * np.arange(n)), ("bool", base > 0), ("i1", (base * 10).astype("i1"))]
        ax = 0
    elif shape in ("2d0", "2d1"):
        b = batch(n)
        v = b[:, -n - 1 : -n]
        datas = [("f8", b), ("f4", b.astype("f4")), ("i8", np.nan_to_num(b).astype("i8")), ("c16", b * (1 + 2j)), ("u1", np.nan_to_num(np.abs(b)).astype("u1") + 240), ("one", v)]
        ax = int(shape[-1])
    elif shape == "3d":
        b = batch(n)
        b = b[:, : b.shape[1] // 2 * 2].reshape(n, 2, -1)
        datas, ax = [("f8", b), ("c16", b * (1 - 1j))], 1
    else:  # the other dimension has one sample
        datas, ax = [("f8", base[:, None]), ("i8", base.astype("i8")[:, None])], int(shape[-1])
    for (dn, data), w, step, center, eng in itertools.product(datas, range(1, n + 2), range(1, n + 1), (False, True), (None, "numpy", "pandas")):
        if shape == "3d" and eng == "pandas" or dn == "c16" and eng == "pandas":
            continue
        if QUICK and n >= 4 and eng is None and (shape != "1d" and step % 2 or dn in ("f4", "i1", "u1")):
            continue
        if QUICK and shape == "2d1" and dn in ("f4", "u1", "i8"):
            continue
        for agg in AGG:
            if dn == "c16" and agg in ("min", "max", "median", "std", "ptp"):
                continue
            if dn not in ("f8", "i8") and agg not in ("mean", "sum", "max", "std"):
                continue
            if dn == "bool" and agg not in ("mean", "max"):
                continue
            if agg == "ptp" and eng == "pandas" and data.size > 100:
                continue
            if QUICK and dn not in ("f8", "nan", "c16") and (step + w) % 2:
                continue
            spec = dict(op="rolling", n=n, shape=shape, data=dn, w=w, step=step, center=center, engine=eng, agg=agg)
            with ctx.case(spec):
                ctx.state(repr(spec))
                p = mk("dt_ms", range(n), data, ax)
                if w > n:
                    try:
                        out = rolled(p.rolling(time=w, step=step, center=center, engine=eng, samples=True), agg)
                    except Exception:
                        ctx.outcome("window too long refused")
                        continue
                else:
                    out = rolled(p.rolling(time=w, step=step, center=center, engine=eng, samples=True), agg)
                ctx.trans()
                want = reference(data, w, step, center, agg)
                expect(out.dims == p.dims, "dims", out.dims)
                close(np.moveaxis(np.asarray(out.data), ax, 0), want, "rolling " + agg, 1e-5 if dn == "f4" else 1e-7)
                same_labels(out, p, step)
                same_units(out.get_coord("time").units, "s", "time")
                check_rest(p, out, ("time",), "rolling")
                same_units(out.attrs.data_units, "m/s", "data")


def run_spec(shard, ctx):
    """Windows given in other ways; the direction of the coord does not matter."""
    import dascore as dc

    kind, n = shard["label"], shard["n"]
    typ = STEP[kind][2]
    dx = STEP[kind][1] / 1e9 if typ in "mM" else STEP[kind][1]
    u = units_of(kind)
    data = np.stack([((np.arange(n) * 37 + 11) % 23 - 9).astype(float), np.arange(n) * 1.0], axis=1)

    def ways(k):
        """Ways to write a length of k samples, not in samples."""
        out = [("value", k * dx), ("half", (k - 0.5) * dx)] if typ != "i" else [("value", k * dx)]
        out.append(("quantity", k * dx * dc.get_unit(u)))
        out.append(("milli", k * dx * 1000 * dc.get_unit("m" + u)))
        if typ in "mM":
            out.append(("td", np.timedelta64(int(round(k * dx * 1e9)), "ns")))
        return out

    for rev, ax in itertools.product((False, True), (0, 1)):
        gs = list(range(n))[:: -1 if rev else 1]
        p = mk(kind, gs, data, ax)
        # an associated coordinate follows or goes, it must not be mislabelled
        p = p.update_coords(extra=("time", np.arange(n) + 100))

        def check(spec, w, step, center=False, agg="mean", f=None):
            with ctx.case(spec):
                ctx.state(repr((kind, rev, ax, spec)))
                roller = f()
                ctx.trans()
                out = rolled(roller, agg)
                close(np.moveaxis(np.asarray(out.data), ax, 0), reference(data, w, step, center, agg), "rolling")
                same_labels(out, p, step)
                if "extra" in out.coords.coord_map:
                    expect(same(vals(out, "extra"), vals(p, "extra")[::step]), "associated coord", vals(out, "extra"))
                check_rest(p, out, ("time",), "rolling")

        for w in range(1, n + 1):
            for name, val in ways(w):
                spec = dict(op="rolling-window", kind=kind, rev=rev, ax=ax, way=name, w=w)
                check(spec, w, 1, f=lambda: p.rolling(time=val))
            for step in range(1, n + 1):
                spec = dict(op="rolling-step", kind=kind, rev=rev, ax=ax, w=w, step=step)
                check(dict(spec, way="samples"), w, step, f=lambda: p.rolling(time=w, step=step, samples=True))
                for name, val in ways(step):
                    check(dict(spec, way=name), w, step, True, f=lambda: p.rolling(time=w * dx, step=val, center=True))
                if step < w:
                    check(dict(spec, way="overlap"), w, w - step, f=lambda: p.rolling(time=w, overlap=step, samples=True))
                    for name, val in ways(step):
                        check(dict(spec, way="overlap-" + name), w, w - step, f=lambda: p.rolling(time=w * dx, overlap=val))
            for pc in (25, 50, 75):
                k = pc / 100 * w
                if k % 1:
                    continue
                per = pc * dc.get_unit("percent")
                spec = dict(op="rolling-percent", kind=kind, rev=rev, ax=ax, w=w, pc=pc)
                check(dict(spec, way="step"), w, int(k), f=lambda: p.rolling(time=w, step=per, samples=True))
                check(dict(spec, way="overlap"), w, int(w - k), f=lambda: p.rolling(time=w * dx, overlap=per))
        for sta, lta in itertools.combinations(range(1, n + 1), 2):
            for samples in (True, False):
                with ctx.case(dict(op="stalta", kind=kind, rev=rev, ax=ax, sta=sta, lta=lta, samples=samples)):
                    ctx.state(("stalta", kind, rev, ax, sta, lta, samples))
                    win = (sta, lta) if samples else (sta * dx, lta * dx)
                    out = p.stalta(time=win, samples=samples)
                    ctx.trans()
                    with np.errstate(all="ignore"):
                        want = reference(data, sta, 1, False, "mean") / reference(data, lta, 1, False, "mean")
                    close(np.moveaxis(np.asarray(out.data), ax, 0), want, "stalta")
                    expect(same(vals(out, "time"), vals(p, "time")), "labels")


# ------------------------------------------------------------------ filters
def edge(i, n, mode):
    """Index of the sample standing at position i, None for a constant."""
    if 0 <= i < n:
        return i
    if mode == "constant":
        return None
    if mode == "nearest":
        return 0 if i < 0 else n - 1
    if mode == "wrap":
        return i % n
    if mode == "reflect":
        i %= 2 * n
        return i if i < n else 2 * n - 1 - i
    if n == 1:
        return 0
    i %= 2 * n - 2
    return i if i < n else 2 * n - 2 - i


MODES = ("reflect", "nearest", "mirror", "wrap", "constant")


def window(x, i, lo, hi, mode, cval=0.0):
    """Samples lo..hi around i along axis 0."""
    rows = []
    for j in range(i + lo, i + hi + 1):
        e = edge(j, len(x), mode)
        rows.append(np.full(x.shape[1:], cval) if e is None else x[e])
    return np.array(rows)


def ref_rank(x, w, mode, cval):
    """scipy's median: rank w//2 of the window of w samples from -(w//2)."""
    return np.array([np.sort(window(x, i, -(w // 2), w - 1 - w // 2, mode, cval), axis=0)[w // 2] for i in range(len(x))])


def ref_gauss(x, sigma, mode, cval, truncate):
    r = int(truncate * sigma + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / sigma) ** 2)
    k /= k.sum()
    return np.array([np.tensordot(k, window(x, i, -r, r, mode, cval), axes=(0, 0)) for i in range(len(x))])


def ref_savgol(x, w, order, mode, cval):
    n = len(x)
    half = w // 2
    pos = np.arange(w) - half
    vander = np.vander(pos, order + 1, increasing=True).astype(float)
    fit = np.linalg.pinv(vander)
    out = np.empty(x.shape, dtype=float)
    for i in range(n):
        if mode == "interp":
            c = min(max(i, half), n - 1 - half)
            coef = np.tensordot(fit, x[c - half : c + half + 1], axes=(1, 0))
            out[i] = np.tensordot((i - c) ** np.arange(order + 1.0), coef, axes=(0, 0))
        else:
            out[i] = np.tensordot(fit, window(x, i, -half, half, mode, cval), axes=(1, 0))[0]
    return out


def run_filters(shard, ctx):
    n, which = shard["n"], shard["which"]
    bits = all_binary(min(n, 7)) if n <= 7 else np.concatenate([np.eye(n), 1 - np.eye(n)], 1)
    base = ((np.arange(n) * 37 + 11) % 23 - 9).astype(float)[:, None]
    data = np.concatenate([bits, base], axis=1) if which == "median" else np.concatenate([np.eye(n), base], axis=1)
    m = data.shape[1]
    dtypes = ("f8", "i4", "f4") if which == "median" else ("f8",)
    for ax, mode, dt in itertools.product((0, 1), (*MODES[1:], "interp") if which == "savgol" else MODES, dtypes):
        d = data.astype(dt)
        p = mk("dt_ms", range(n), d, ax)
        cval = 3.0 if mode == "constant" else 0.0

        def check(spec, f, want, tol=1e-7):
            with ctx.case(dict(spec, n=n, ax=ax, mode=mode, dtype=dt)):
                ctx.state(repr((n, ax, mode, dt, spec)))
                out = f()
                ctx.trans()
                close(np.moveaxis(np.asarray(out.data), ax, 0).astype(float), want, spec["op"], tol)
                expect(out.dims == p.dims and same(vals(out, "time"), vals(p, "time")), "labels")
                check_rest(p, out, (), spec["op"])
                same_units(out.attrs.data_units, "m/s", "data")

        if which == "median":
            for w in range(1, min(n, 6) + 1):
                want = ref_rank(d.astype(float), w, mode, cval)
                check(dict(op="median_filter", w=w), lambda: p.median_filter(time=w, samples=True, mode=mode, cval=cval), want)
                check(dict(op="median_filter", w=w, value=True), lambda: p.median_filter(time=w * 0.001, mode=mode, cval=cval), want)
            if n >= 3 and dt == "f8" and n <= 5:
                # two dimensions at once: the window is the box
                for w1, w2 in itertools.product((1, 2, 3), (1, 2, 3)):
                    small = d[:, :6]
                    want = np.empty(small.shape)
                    for i, j in itertools.product(range(n), range(small.shape[1])):
                        win = window(small, i, -(w1 // 2), w1 - 1 - w1 // 2, mode, cval)
                        win = window(win.T, j, -(w2 // 2), w2 - 1 - w2 // 2, mode, cval)
                        want[i, j] = np.sort(win.ravel())[w1 * w2 // 2]
                    p2 = mk("dt_ms", range(n), small, ax)
                    with ctx.case(dict(op="median_filter2", n=n, ax=ax, mode=mode, w=(w1, w2))):
                        ctx.state(("m2", n, ax, mode, w1, w2))
                        other = [x for x in p2.dims if x != "time"][0]
                        out = p2.median_filter(**{"time": w1, other: w2}, samples=True, mode=mode, cval=cval)
                        ctx.trans()
                        close(np.moveaxis(np.asarray(out.data), ax, 0), want, "median over two dims")
        elif which == "gauss":
            for s, tr in itertools.product((1, 2, 3), (1.0, 2.5, 4.0)):
                want = ref_gauss(d, s, mode, cval, tr)
                check(dict(op="gaussian_filter", s=s, truncate=tr), lambda: p.gaussian_filter(time=s, samples=True, mode=mode, cval=cval, truncate=tr), want)
                check(dict(op="gaussian_filter", s=s, truncate=tr, value=True), lambda: p.gaussian_filter(time=s * 0.001, mode=mode, cval=cval, truncate=tr), want)
                other = [x for x in p.dims if x != "time"][0]
                for s2 in (1, 2):
                    w2 = np.swapaxes(ref_gauss(np.swapaxes(want, 0, 1), s2, mode, cval, tr), 0, 1)
                    for order in (("time", other), (other, "time")):
                        kw = {k: {"time": s, other: s2}[k] for k in order}
                        if mode != "constant":
                            check(dict(op="gaussian_filter2", s=s, s2=s2, truncate=tr, order=order), lambda: p.gaussian_filter(**kw, samples=True, mode=mode, cval=cval, truncate=tr), w2)
        else:
            for w in range(1, n + 1):
                if w % 2 == 0:
                    continue
                for order in range(min(w, 4)):
                    want = ref_savgol(d, w, order, mode, cval)
                    check(dict(op="savgol_filter", w=w, order=order), lambda: p.savgol_filter(order, time=w, samples=True, mode=mode, cval=cval), want)
                    check(dict(op="savgol_filter", w=w, order=order, value=True), lambda: p.savgol_filter(order, time=w * 0.001, mode=mode, cval=cval), want)
                    for w2 in (1, 3):
                        if w2 > m or order >= w2 or mode == "constant":
                            continue
                        both = np.swapaxes(ref_savgol(np.swapaxes(want, 0, 1), w2, order, mode, cval), 0, 1)
                        other = [x for x in p.dims if x != "time"][0]
                        for names in (("time", other), (other, "time")):
                            kw = {k: {"time": w, other: w2}[k] for k in names}
                            check(dict(op="savgol_filter2", w=w, w2=w2, order=order, names=names), lambda: p.savgol_filter(order, samples=True, mode=mode, cval=cval, **kw), both)


# ------------------------------------------------------------------ hampel
def ref_hampel(x, w, thr, eps):
    """One-dimensional windows, reflecting edges: (result, flagged, margin)."""
    med = ref_rank(x, w, "reflect", 0)
    dev = np.abs(x - med)
    mad = ref_rank(dev, w, "reflect", 0)
    safe = np.where(mad == 0, eps, mad)
    flag = dev / safe > thr
    return np.where(flag, med, x), flag


def run_hampel(shard, ctx):
    n = shard["n"]
    cols = [all_binary(n)[:, :256] * 50 + (np.arange(n) % 3)[:, None]] if n <= 8 else []
    cols.append(100 * np.eye(n) + (np.arange(n) % 2)[:, None])
    cols.append(((np.arange(n) * 37 + 11) % 23 - 9)[:, None] * 1.0)
    data = np.concatenate(cols, axis=1)
    big = {"f8": 0, "f4": 0, "i4": 2**24 + 1, "i8": 2**40 + 1, "u2": 1000}
    for ax, dt, w, thr, approx, value in itertools.product((0, 1), big, (3, 5, 7), (0.5, 3, 10.0), (False, True), (False, True)):
        if w > n or value and (dt != "f8" or w == 3):  # at least three samples
            continue
        d = (data.astype("i8") + big[dt]).astype(dt) if dt[0] in "iu" else data.astype(dt)
        with ctx.case(dict(op="hampel", n=n, ax=ax, dtype=dt, w=w, thr=thr, approx=approx, value=value)):
            ctx.state(("hampel", n, ax, dt, w, thr, approx, value))
            p = mk("dt_ms", range(n), d, ax)
            kw = dict(time=(w - 1) * 0.001) if value else dict(time=w, samples=True)  # even windows grow
            out = p.hampel_filter(threshold=thr, approximate=approx, **kw)
            ctx.trans()
            res = np.moveaxis(np.asarray(out.data), ax, 0)
            expect(res.dtype == d.dtype, "dtype", res.dtype)
            # the reference works on the small numbers (a constant offset does not matter)
            want, flag = ref_hampel(data.astype(float), w, thr, 1e-7)
            got = (res.astype("i8") - big[dt] if dt[0] in "iu" else res).astype(float)
            h = w // 2
            sl = slice(2 * h, n - 2 * h) if approx else slice(None)
            close(got[sl], want[sl], "hampel")
            # everywhere: a sample is kept exactly or becomes a sample of the neighbourhood
            for i in range(n):
                lo, hi = max(0, i - w), min(n, i + w + 1)
                near = data[lo:hi]
                expect(bool(np.all((got[i] >= near.min(0)) & (got[i] <= near.max(0)))), "hampel value outside its neighbourhood", i)
            check_rest(p, out, (), "hampel")
            expect(same(vals(out, "time"), vals(p, "time")), "labels")
    # two dimensions, exact
    for w1, w2, thr in itertools.product((3, 5), (3,), (3.0, 10.0)):
        if w1 > n:
            continue
        with ctx.case(dict(op="hampel2", n=n, w=(w1, w2), thr=thr)):
            ctx.state(("hampel2", n, w1, w2, thr))
            x = data[:, -7:]

            def box(a):
                out = np.empty(a.shape)
                for i, j in itertools.product(range(a.shape[0]), range(a.shape[1])):
                    win = window(a, i, -(w1 // 2), w1 // 2, "reflect")
                    win = window(win.T, j, -(w2 // 2), w2 // 2, "reflect")
                    out[i, j] = np.sort(win.ravel())[w1 * w2 // 2]
                return out

            med = box(x)
            dev = np.abs(x - med)
            mad = box(dev)
            want = np.where(dev / np.where(mad == 0, 1e-7, mad) > thr, med, x)
            p = mk("dt_ms", range(n), x, 0)
            out = p.hampel_filter(time=w1, wave=w2, samples=True, threshold=thr, approximate=False)
            ctx.trans()
            close(out.data, want, "hampel over two dims")


# ------------------------------------------------------------------ moving windows
MOVE = {"median": np.median, "mean": np.mean, "sum": np.sum, "min": np.min, "max": np.max, "std": np.std}


def run_moving(shard, ctx):
    from dascore.utils import moving

    n = shard["n"]
    data = np.concatenate([all_binary(n), ((np.arange(n) * 37 + 11) % 23 - 9)[:, None]], axis=1)
    for op, eng, w, ax, dt in itertools.product(MOVE, ("scipy", "bottleneck", "auto"), range(1, n + 1), (0, 1, -1), ("f8", "f4", "i4")):
        if op == "std" and eng == "scipy":
            continue
        for mode, origin, cval in [("reflect", 0, 0.0)] + [(m, 0, 2.0) for m in MODES[1:]] + [("nearest", 1, 0.0), ("reflect", -1, 0.0)]:
            if op == "std" and (mode != "reflect" or origin):
                continue
            if origin and op == "median":  # refused for more than one dimension
                continue
            if origin and not -((w - 1) // 2) <= origin <= (w - 1) // 2:
                continue
            with ctx.case(dict(op="move_" + op, engine=eng, n=n, w=w, ax=ax, dtype=dt, mode=mode, origin=origin)):
                ctx.state((op, eng, n, w, ax, dt, mode, origin))
                src = data.astype(dt)
                x = np.moveaxis(src, 0, ax)
                keep = x.copy()
                kw = {} if op == "std" else dict(mode=mode, origin=origin, cval=cval)
                out = getattr(moving, "move_" + op)(x, w, axis=ax, engine=eng, **kw)
                ctx.trans()
                expect(bool(np.all(x == keep)), "the input was changed")
                res = np.moveaxis(np.asarray(out), ax, 0).astype(float)
                exact = eng == "scipy" or mode != "reflect" or bool(origin)
                if w % 2 == 0 and not exact and op != "median":
                    # documented: even bottleneck windows keep their own convention;
                    # the value is still that of w samples including the label
                    for i in range(w, n - w):
                        cands = [MOVE[op](src[i - w + 1 + s : i + 1 + s].astype(float), axis=0) for s in range(w)]
                        expect(bool(np.all(np.any([np.abs(res[i] - c) < 1e-4 for c in cands], axis=0))), "even window", i)
                    continue
                lo, hi = -(w // 2) - origin, w - 1 - w // 2 - origin
                for i in range(n):
                    if not exact and (i + lo < 0 or i + hi >= n):
                        continue
                    win = window(src.astype(float), i, lo, hi, mode, cval)
                    want = np.sort(win, axis=0)[w // 2] if op == "median" else MOVE[op](win, axis=0)
                    close(res[i], want, f"moving {op} at {i}", 1e-4)


# ------------------------------------------------------------------ kurtosis
def run_kurt(shard, ctx):
    n = shard["n"]
    data = np.concatenate([all_binary(n), ((np.arange(n) * 37 + 11) % 23 - 9)[:, None]], axis=1)
    for ax, rev, w, off, kind in itertools.product((0, 1), (False, True), range(2, n + 1), (0.0, 1000.0, 1e6), ("dt_ms", "f_dec", "i")):
        gs = list(range(n))[:: -1 if rev else 1]
        x = data + off
        for samples in (True, False):
            dx = STEP[kind][1] / 1e9 if kind == "dt_ms" else STEP[kind][1]
            win = w if samples else w * dx
            with ctx.case(dict(op="kurtosis", n=n, ax=ax, rev=rev, w=w, offset=off, kind=kind, samples=samples)):
                ctx.state(("kurt", n, ax, rev, w, off, kind, samples))
                p = mk(kind, gs, x, ax)
                out = p.kurtosis(time=win, samples=samples, recursive=False)
                ctx.trans()
                want = np.empty(x.shape)
                for i in range(n):
                    v = data[max(0, i - w // 2) : min(n, i - w // 2 + w)]
                    c = v - v.mean(0)
                    m2, m4 = (c**2).mean(0), (c**4).mean(0)
                    with np.errstate(all="ignore"):
                        want[i] = np.where(m2 > 1e-12, m4 / m2**2, np.nan)
                close(np.moveaxis(np.asarray(out.data), ax, 0), want, "kurtosis", 1e-6)
                expect(same(vals(out, "time"), vals(p, "time")) and out.dims == p.dims, "labels")
            if off:
                continue
            with ctx.case(dict(op="kurtosis-recursive", n=n, ax=ax, rev=rev, w=w, kind=kind, samples=samples)):
                ctx.state(("kurtr", n, ax, rev, w, kind, samples))
                p = mk(kind, gs, x, ax)
                out = p.kurtosis(time=win, samples=samples, recursive=True)
                ctx.trans()
                want = np.empty(x.shape)
                c = 1 - 1 / w
                for j in range(x.shape[1]):
                    mean = var = kurt = 0.0
                    varx = x[:, j].var()
                    for i in range(n):
                        mean = c * mean + (1 - c) * x[i, j]
                        d = x[i, j] - mean
                        var = c * var + (1 - c) * d**2
                        norm = max(var, varx) ** 2
                        kurt = c * kurt + (1 - c) * d**4 / norm if norm > 0 else np.nan
                        want[i, j] = kurt
                res = np.moveaxis(np.asarray(out.data), ax, 0)
                good = x.std(0) > 0
                close(res[:, good], want[:, good], "recursive kurtosis", 1e-6)
                expect(same(vals(out, "time"), vals(p, "time")) and out.dims == p.dims, "labels")
