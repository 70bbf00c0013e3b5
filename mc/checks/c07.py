"""C07: aggregations reduce exactly the requested dimensions and samples."""
from __future__ import annotations

import itertools
import math

import numpy as np

from mc.core import expect
from mc.gen import same
from mc.monitor import consistent
from mc.ref import T0, sec

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of NaN patterns x shapes x dims x methods x reduction modes x coordinate kinds on the real code against per-label Python statistics"
ASSUMPTIONS = ["several dims are reduced sequentially in the order given, as documented", "numbers compared to 1e-12"]
BOUNDS = {
    "quick": "all 64 NaN masks of a 2x3 patch (2 dim orders) x 6 dim arguments x 12 methods; 7 coord kinds x 11 methods x 11 dim_reduce modes x shapes up to 3-D; numpy reductions/accumulations x axes",
    "thorough": "adds all 512 NaN masks of 3x3 and 256 of 2x2x2",
}


def shards(tier):
    out = [dict(kind="masks", shape=[2, 3], order=o, method=m) for o in (0, 1) for m in METHODS]
    if tier != "quick":
        out += [dict(kind="masks", shape=[3, 3], order=0, method=m) for m in METHODS]
        out += [dict(kind="masks", shape=[2, 2, 2], order=0, method=m) for m in METHODS]
    out += [dict(kind="modes", coord=c) for c in COORDS]
    out += [dict(kind="numpy", dims=i) for i in range(len(DIMS))]
    out += [dict(kind="dtypes"), dict(kind="reject")]
    return out


def run(shard, ctx):
    globals()["run_" + shard["kind"]](shard, ctx)


# ------------------------------------------------------------------ reference statistics
def clean(v):
    return [x for x in v if not (isinstance(x, float) and math.isnan(x))]


def r_mean(v):
    c = clean(v)
    return sum(c) / len(c) if c else math.nan


def r_median(v):
    c = sorted(clean(v))
    if not c:
        return math.nan
    n = len(c)
    return c[n // 2] if n % 2 else (c[n // 2 - 1] + c[n // 2]) / 2


def r_std(v):
    c = clean(v)
    if not c:
        return math.nan
    m = sum(c) / len(c)
    return math.sqrt(sum((x - m) ** 2 for x in c) / len(c))


METHODS = {
    "mean": r_mean, "median": r_median, "min": lambda v: min(clean(v), default=math.nan), "max": lambda v: max(clean(v), default=math.nan),
    "sum": lambda v: sum(clean(v)), "std": r_std, "first": lambda v: v[0], "last": lambda v: v[-1],
    "any": lambda v: any(bool(x) for x in v), "all": lambda v: all(bool(x) for x in v),
    "np.mean": lambda v: sum(v) / len(v), "np.ptp": lambda v: max(v) - min(v) if len(clean(v)) == len(v) else math.nan,
}
DIMS = [("distance", "time"), ("time", "distance"), ("time",), ("distance", "time", "wave"), ("wave", "time", "distance")]


def reduce_ref(data, axis, fn):
    moved = np.moveaxis(data, axis, 0)
    out = np.empty(moved.shape[1:], dtype=object)
    for idx in np.ndindex(out.shape):
        out[idx] = fn([x.item() if hasattr(x, "item") else x for x in moved[(slice(None), *idx)]])
    return np.expand_dims(out, axis)


def call(p, method, dim, **kw):
    if method.startswith("np."):
        return p.aggregate(dim, method=getattr(np, method[3:]), **kw)
    return getattr(p, method)(dim, **kw)


def close(a, want):
    a = np.asarray(a)
    w = np.array([float(x) for x in want.ravel()]).reshape(want.shape)
    return a.shape == w.shape and bool(np.allclose(a.astype(float), w, rtol=1e-12, atol=1e-12, equal_nan=True))


def labels(dims, shape, kind="fwd"):
    out = {}
    for d, n in zip(dims, shape):
        if d == "time":
            out[d] = T0 + np.arange(n) * sec(0.5)
        elif d == "distance":
            out[d] = np.arange(n) * 2.0 + 1
        else:
            out[d] = np.arange(n) * 10
    return out


def mk(dims, data, extra=True, lab=None):
    import dascore as dc

    lab = lab or labels(dims, data.shape)
    coords = dict(lab)
    if extra:
        for d in dims:
            coords["on_" + d] = (d, np.arange(len(lab[d])) * 1.0 + 5)
    return dc.Patch(data=data, coords=coords, dims=dims, attrs=dict(tag="a", data_units="m"))


def check_rest(p, res, reduced, what):
    """Everything not concerned is unchanged."""
    for d in p.dims:
        if d in reduced:
            continue
        expect(d in res.dims, f"{what}dim {d} lost")
        expect(same(np.asarray(res.get_array(d)), np.asarray(p.get_array(d))), f"{what}labels of {d}")
        n = "on_" + d
        if n in p.coords.coord_map:
            expect(n in res.coords.coord_map and same(np.asarray(res.get_array(n)), np.asarray(p.get_array(n))), f"{what}coord {n}")
    expect(res.attrs.tag == "a", f"{what}attrs")
    consistent(res, what)


def run_masks(shard, ctx):
    shape = tuple(shard["shape"])
    dims = ("distance", "time", "wave")[: len(shape)]
    if shard["order"]:
        dims, shape = dims[::-1], shape[::-1]
    m = shard["method"]
    fn = METHODS[m]
    n = int(np.prod(shape))
    base = ((np.arange(n) * 7) % 11 - 3.0).reshape(shape)
    dimargs = list(dims) + [None] + [list(x) for x in itertools.permutations(dims, 2)]
    for mask in range(2 ** n):
        data = base.copy()
        data.reshape(-1)[[i for i in range(n) if mask >> i & 1]] = np.nan
        p = mk(dims, data)
        for da in dimargs:
            with ctx.case(dict(method=m, dims=dims, shape=shape, mask=mask, dim=da)):
                ctx.trans()
                ctx.state((m, dims, shape, mask, str(da)))
                want = data
                red = [da] if isinstance(da, str) else list(dims) if da is None else da
                for d in red:
                    want = reduce_ref(want, dims.index(d), fn)
                res = call(p, m, da)
                expect(res.dims == dims, "dims", res.dims)
                expect(close(res.data, want), f"{m} over {red}", np.asarray(res.data).tolist(), want.tolist())
                check_rest(p, res, red, "")
                if len(red) < len(dims):
                    sq = call(p, m, da, dim_reduce="squeeze")
                    expect(sq.dims == tuple(d for d in dims if d not in red), "squeezed dims", sq.dims)
                    expect(close(sq.data, np.squeeze(want, tuple(dims.index(d) for d in red))), "squeezed values")
                    check_rest(p, sq, red, "squeeze: ")
                ctx.trace()
                ctx.outcome(m)


def _ns(*x):
    return np.array(x, "i8").view("m8[ns]")


COORDS = {
    "even": np.array([1.0, 3.0, 5.0]), "rev": np.array([5.0, 3.0, 1.0]), "uneven": np.array([1.0, 2.0, 6.0]), "shuffled": np.array([6.0, 1.0, 2.0]),
    "int": np.array([2, 4, 6]), "dt": T0 + np.arange(3) * sec(2), "dtrev": (T0 + np.arange(3) * sec(2))[::-1].copy(),
    "dtuneven": T0 + _ns(0, 2_000_000_000, 10_000_000_000), "td": _ns(2, 4, 12), "one": np.array([4.0]), "onedt": np.array([T0]),
}


def run_modes(shard, ctx):
    import dascore as dc

    c = COORDS[shard["coord"]]
    n = len(c)
    is_time = c.dtype.kind in "mM"
    modes = {
        "empty": None, "squeeze": None, "mean": r_mean, "median": r_median, "min": min, "max": max, "first": lambda v: v[0], "last": lambda v: v[-1],
        "callmax": max, "std": r_std, "sum": sum,
    }
    for dims in (("x", "y"), ("y", "x"), ("x",)):
        shape = tuple(n if d == "x" else 2 for d in dims)
        data = (np.arange(int(np.prod(shape))) * 5 % 7).reshape(shape) * 1.0
        coords = {"x": c, "on_x": ("x", np.arange(n) * 1.0)}
        if "y" in dims:
            coords.update(y=np.array([10, 20]), on_y=("y", np.array([1.0, 2.0])), grid=(dims, data))
        p = dc.Patch(data=data, coords=coords, dims=dims, attrs=dict(tag="a"))
        ax = dims.index("x")
        for m, mode in itertools.product([k for k in METHODS if k not in ("any", "all")], modes):
            if is_time and mode in ("std", "sum"):
                continue
            if mode == "squeeze" and len(dims) == 1:
                continue
            with ctx.case(dict(coord=shard["coord"], dims=dims, method=m, mode=mode)):
                ctx.trans()
                ctx.state((shard["coord"], dims, m, mode))
                res = call(p, m, "x", dim_reduce=np.max if mode == "callmax" else mode)
                want = reduce_ref(data, ax, METHODS[m])
                if mode == "squeeze":
                    expect("x" not in res.dims and "x" not in res.coords.coord_map, "squeezed dim still there")
                    want = np.squeeze(want, ax)
                expect(close(res.data, want), "values", np.asarray(res.data).tolist(), want.tolist())
                check_rest(p, res, ["x"], "")
                if mode == "squeeze":
                    continue
                xc = res.get_coord("x")
                expect(len(xc) == 1, "reduced coord length", len(xc))
                if mode == "empty":
                    if n == 1:
                        expect(same(np.asarray(xc.values), c), "single label kept", xc.values)
                    else:
                        expect(np.all(np.isnan(xc.values) if not is_time else np.isnat(np.asarray(xc.values, dtype=c.dtype))), "invented labels", xc.values)
                    continue
                iv = c.astype("i8") if is_time else c
                b0 = int(iv[0]) if is_time else 0
                ref = modes[mode]([x.item() - b0 for x in iv]) + b0
                got = np.asarray(xc.values)[0]
                if is_time:
                    expect(np.asarray(xc.values).dtype.kind == c.dtype.kind, "dtype kind of reduced coord", xc.dtype)
                    expect(abs(int(got.astype("i8")) - ref) <= 2, f"{mode} of labels", got, ref)
                else:
                    expect(abs(float(got) - ref) < 1e-12, f"{mode} of labels", got, ref)
                ctx.trace()
                ctx.outcome(mode)
        # two dims, both reduced with a mode
        if "y" in dims and not is_time:
            for mode in ("mean", "min", "last"):
                with ctx.case(dict(coord=shard["coord"], dims=dims, both=mode)):
                    ctx.trans()
                    res = p.max(("x", "y"), dim_reduce=mode)
                    expect(res.shape == (1, 1) and float(res.data.item()) == data.max(), "max of all")
                    expect(float(res.get_array("y")[0]) == modes[mode]([10, 20]), "label of y", res.get_array("y"))
                    expect(abs(float(res.get_array("x")[0]) - modes[mode](c.tolist())) < 1e-12, "label of x", res.get_array("x"))


def run_numpy(shard, ctx):
    dims = DIMS[shard["dims"]]
    shape = tuple({"distance": 2, "time": 3, "wave": 2}[d] for d in dims)
    data = ((np.arange(int(np.prod(shape))) * 5 % 7).reshape(shape) - 2.0)
    p = mk(dims, data)
    axes = list(range(len(dims))) + [-1, None] + ([tuple(range(len(dims)))] if len(dims) > 1 else []) + ([(0, 1), (1, 0), (-1, 0)] if len(dims) > 2 else [])
    for fn, ax in itertools.product((np.mean, np.sum, np.max, np.min, np.std, np.median, np.nanmean, np.prod, np.any, np.all, np.ptp), axes):
        for kw in (True, False):
            with ctx.case(dict(fn=fn.__name__, dims=dims, axis=ax, kw=kw)):
                ctx.trans()
                ctx.state((fn.__name__, dims, str(ax), kw))
                want = fn(data, axis=ax)
                res = fn(p, axis=ax) if kw else fn(p, ax)
                red = dims if ax is None else [dims[i] for i in (ax if isinstance(ax, tuple) else (ax,))]
                full = want if ax is None and False else np.expand_dims(want, tuple(range(len(dims))) if ax is None else ax)
                expect(np.asarray(res.data).shape == full.shape and np.allclose(np.asarray(res.data, float), full.astype(float)), "values", np.asarray(res.data), full)
                check_rest(p, res, red, f"{fn.__name__}: ")
                ctx.trace()
                ctx.outcome(fn.__name__)
    ufs = {"add": np.add, "multiply": np.multiply, "maximum": np.maximum, "minimum": np.minimum}
    for (n, uf), d in itertools.product(ufs.items(), dims):
        with ctx.case(dict(uf=n, dims=dims, dim=d)):
            ctx.trans()
            ctx.state((n, dims, d, "uf"))
            ax = dims.index(d)
            for form, res in (("method", getattr(p, n).reduce(dim=d)), ("np", uf.reduce(p, axis=ax))):
                want = np.expand_dims(uf.reduce(data, axis=ax), ax)
                expect(np.asarray(res.data).shape == want.shape and np.allclose(res.data, want), f"reduce {form}", np.asarray(res.data), want)
                check_rest(p, res, [d], f"reduce {form}: ")
            for form, res in (("method", getattr(p, n).accumulate(dim=d)), ("np", uf.accumulate(p, axis=ax))):
                want = uf.accumulate(data, axis=ax)
                expect(np.allclose(res.data, want) and res.shape == want.shape, f"accumulate {form}", np.asarray(res.data), want)
                check_rest(p, res, [], f"accumulate {form}: ")
            ctx.trace(4)
    if len(dims) > 1:
        with ctx.case(dict(dims=dims, multi="reduce")):
            res = p.add.reduce(dim=dims[:2])
            want = np.expand_dims(np.add.reduce(data, axis=(0, 1)), (0, 1))
            expect(np.asarray(res.data).shape == want.shape and np.allclose(res.data, want), "reduce over two dims", np.asarray(res.data), want)
    for d in dims:
        with ctx.case(dict(cumsum=dims, dim=d)):
            res = np.cumsum(p, axis=dims.index(d))
            expect(np.allclose(res.data, np.cumsum(data, axis=dims.index(d))), "cumsum")
            check_rest(p, res, [], "cumsum: ")


def run_dtypes(shard, ctx):
    for dt, dims, m in itertools.product(("i8", "i4", "u1", "f4", "f8", "bool"), (("distance", "time"), ("time", "distance")), METHODS):
        shape = (2, 3)
        data = (np.arange(6).reshape(shape) % 4).astype(dt)
        if m == "np.ptp" and dt == "bool":
            continue
        p = mk(dims, data)
        for d in dims:
            with ctx.case(dict(dt=dt, dims=dims, method=m, dim=d)):
                ctx.trans()
                ctx.state((dt, dims, m, d))
                res = call(p, m, d)
                ref = reduce_ref(data.astype(int) if dt == "bool" else data, dims.index(d), METHODS[m])
                got = np.asarray(res.data).astype(float)
                w = np.array([float(x) for x in ref.ravel()]).reshape(ref.shape)
                expect(got.shape == w.shape and np.allclose(got, w, rtol=1e-6), "values", got, w)
                if m in ("min", "max", "first", "last") :
                    expect(np.asarray(res.data).dtype == data.dtype, "dtype", res.data.dtype)
                ctx.trace()


def run_reject(shard, ctx):
    from dascore.exceptions import ParameterError

    p = mk(("distance", "time"), np.arange(6.0).reshape(2, 3))
    bad = {
        "squeeze all": lambda: p.mean(None, dim_reduce="squeeze"), "squeeze all (dims)": lambda: p.mean(("time", "distance"), dim_reduce="squeeze"),
        "bad mode": lambda: p.mean("time", dim_reduce="nope"), "bad dim": lambda: p.mean("nope"),
        "non-dim coord": lambda: p.mean("on_time"), "reduce bad dim": lambda: p.add.reduce(dim="nope"), "out": lambda: np.sum(p, axis=0, out=np.zeros(3)),
    }
    for n, f in bad.items():
        with ctx.case(n):
            ctx.trans()
            ctx.state(n)
            try:
                f()
            except Exception as exc:
                ctx.outcome(type(exc).__name__)
                continue
            expect(False, f"{n} accepted")
