"""
Every public patch operation, as (id, callable(patch) -> result).

Arguments which are arrays or patches are created once per instance by `build`,
and listed so that monitors can watch them for modification.
"""
from __future__ import annotations

import numpy as np

from mc.ref import T0, sec

NT, ND = 40, 5
ATTRS = dict(tag="tagged", station="stat", network="ne", data_type="velocity", data_category="DAS",
             instrument_id="inst", acquisition_id="acq", data_units="m/s", custom="abc", gauge_length=10.0, history=("made(1)", "read"))


def data_of(shape, kind="f8", nan=False):
    n = int(np.prod(shape))
    x = np.arange(n, dtype="f8")
    d = (np.sin(x * 0.7) * 5 + (x % 7) - 2).reshape(shape)
    if kind == "c16":
        d = d + 1j * np.cos(x * 0.3).reshape(shape)
    d = np.round(d * 4) / 4 if kind != "i8" else np.round(d * 4)
    d = d.astype(kind)
    if nan:
        d.reshape(-1)[[3, n // 2]] = np.nan
    return d


def bases():
    """name -> zero-argument constructor of a fresh patch."""
    import dascore as dc

    def mk(dims=("distance", "time"), kind="f8", nan=False, rev=(), uneven=(), extra=True, attrs=None, order="C",
           units=True):
        shape = tuple({"distance": ND, "time": NT}[d] for d in dims)
        data = np.asarray(data_of(shape, kind, nan), order=order)
        t = T0 + np.arange(NT) * sec(0.01)
        x = np.arange(ND) * 2.0 + 10
        if "time" in uneven:
            t = t.copy()
            t[3] += sec(0.004)
        if "distance" in uneven:
            x = x.copy()
            x[1] += 0.5
        if "time" in rev:
            t = t[::-1].copy()
        if "distance" in rev:
            x = x[::-1].copy()
        coords = {"distance": x, "time": t}
        coords = {k: v for k, v in coords.items() if k in dims}
        if extra and len(dims) == 2:
            coords["qual"] = ("time", (np.arange(NT) * 7 % NT) * 1.0)
            coords["latitude"] = ("distance", np.array([3.0, 1.0, 2.0, 5.0, 4.0]))
            coords["grid"] = (dims, np.arange(ND * NT).reshape(shape) * 1.0)
            coords["free"] = (None, np.array([1.0, 2.0]))
            coords["_priv"] = ("distance", np.arange(ND) * 1.0)
        a = dict(ATTRS if attrs is None else attrs)
        p = dc.Patch(data=data, coords=coords, dims=dims, attrs=a)
        if units:
            kw = {"time": "s", "distance": "m"}
            p = p.update(coords=p.coords.set_units(**{k: v for k, v in kw.items() if k in dims}))
        return p

    return {
        "std": lambda: mk(),
        "plain": lambda: mk(extra=False),
        "T": lambda: mk(dims=("time", "distance")),
        "nan": lambda: mk(nan=True),
        "int": lambda: mk(kind="i8"),
        "cplx": lambda: mk(kind="c16"),
        "f32": lambda: mk(kind="f4"),
        "rev": lambda: mk(rev=("time", "distance")),
        "uneven": lambda: mk(uneven=("time", "distance")),
        "one": lambda: mk(dims=("time",)),
        "fort": lambda: mk(order="F", units=False, attrs={}),
    }


class Op:
    __slots__ = ("name", "fn", "args", "method")

    def __init__(self, name, fn, args=(), method=None):
        self.name, self.fn, self.args = name, fn, list(args)
        self.method = method or name.split("-")[0]


def build(patch):
    """All operations for (patches like) `patch`; argument objects are fresh."""
    import dascore as dc
    import pandas as pd
    from dascore.units import get_quantity as q

    out = []

    def add(name, fn, *args, method=None):
        out.append(Op(name, fn, args, method))

    dims = patch.dims
    nt = patch.data.shape[patch.dims.index("time")] if "time" in dims else 0
    has_d = "distance" in dims
    t = patch.get_array("time") if "time" in dims else None
    # --- structure
    add("transpose", lambda p: p.transpose())
    add("flip-time", lambda p: p.flip("time"))
    add("flip-all", lambda p: p.flip(*p.dims))
    add("flip-data", lambda p: p.flip("time", flip_coords=False))
    add("sort_coords-qual", lambda p: p.sort_coords("qual"))
    add("sort_coords-rev", lambda p: p.sort_coords(*p.dims, reverse=True))
    add("snap_coords", lambda p: p.snap_coords())
    add("snap_coords-time", lambda p: p.snap_coords("time"))
    tt = np.sort(t) if t is not None else None
    if tt is not None:
        add("select-time", lambda p: p.select(time=(tt[2], tt[-3])))
        add("select-copy", lambda p: p.select(time=(tt[2], tt[-3]), copy=True))
        add("select-rel", lambda p: p.select(time=(0.05, -0.05), relative=True))
        arr = tt[[1, 5, 3]].copy()
        add("select-arr", lambda p: p.select(time=arr), arr)
        add("order-arr", lambda p: p.order(time=arr), arr)
        mask = np.arange(nt) % 3 == 0
        add("select-mask", lambda p: p.select(time=mask), mask)
        ind = np.array([4, 2, 1])
        add("select-ind", lambda p: p.select(time=ind, samples=True), ind)
        add("order-ind", lambda p: p.order(time=ind, samples=True), ind)
        add("select-none", lambda p: p.select(time=(tt[-1] + sec(5), None)))
    add("select-samples", lambda p: p.select(time=(3, -3), samples=True))
    add("iselect", lambda p: p.iselect(time=(3, 8)), method="select")
    add("select-qual", lambda p: p.select(qual=(3, 20)))
    add("select-free", lambda p: p.select(free=(2, None)))
    add("select-bad", lambda p: p.select(nope=(2, None)))
    add("squeeze", lambda p: p.squeeze())
    add("append_dims", lambda p: p.append_dims(face=2))
    fa = np.array([5.0, 6.0])
    add("append_dims-arr", lambda p: p.append_dims(face=fa), fa)
    add("rename_coords", lambda p: p.rename_coords(time="money"))
    add("rename_coords-qual", lambda p: p.rename_coords(qual="quality"))
    add("set_dims", lambda p: p.set_dims(time="qual"))
    add("drop_coords", lambda p: p.drop_coords("qual", "grid"))
    add("drop_private_coords", lambda p: p.drop_private_coords())
    add("update_coords-min", lambda p: p.update_coords(time_min=T0 + sec(100)))
    add("update_coords-step", lambda p: p.update_coords(time_step=sec(0.02)))
    na = np.arange(nt) * 0.5
    add("update_coords-time", lambda p: p.update_coords(time=na), na)
    add("update_coords-new", lambda p: p.update_coords(newc=("time", na)), na)
    add("update_coords-drop", lambda p: p.update_coords(qual=None))
    add("update_coords-bad", lambda p: p.update_coords(newc=("time", na[:-1])))
    add("update_attrs-tag", lambda p: p.update_attrs(tag="new"))
    add("update_attrs-min", lambda p: p.update_attrs(time_min=T0 + sec(50)))
    add("update_attrs-units", lambda p: p.update_attrs(data_units="km"))
    add("update_attrs-custom", lambda p: p.update_attrs(custom=12, other=(1, 2)))
    da = np.ones(patch.data.shape)
    add("update-data", lambda p: p.update(data=da), da)
    add("new-data", lambda p: p.new(data=p.data * 2))
    add("new-attrs", lambda p: p.new(attrs=dict(tag="x")))
    add("new-coords", lambda p: p.new(coords=p.coords.drop_coords("qual")[0]))
    add("new-bad", lambda p: p.new(data=p.data[..., 1:]))
    add("make_broadcastable_to", lambda p: p.make_broadcastable_to((2, *p.shape), drop_coords=True))
    df = pd.DataFrame({"distance": [10.0, 18.0], "xx": [0.0, 1.0]})
    add("coords_from_df", lambda p: p.coords_from_df(df), df)
    ser = pd.Series({"latitude": 2.0})
    add("add_distance_to", lambda p: p.add_distance_to(ser), ser)
    # --- units
    add("set_units", lambda p: p.set_units("m", time="ms"))
    add("convert_units", lambda p: p.convert_units("km/s", distance="ft"))
    add("convert_units-time", lambda p: p.convert_units(time="ms"))
    add("convert_units-bad", lambda p: p.convert_units(distance="degC"))
    add("simplify_units", lambda p: p.simplify_units())
    # --- basic processing
    for nm in ("abs", "conj", "real", "imag", "angle", "exp", "isnan", "is_finite", "isinf", "log"):
        add(nm, lambda p, nm=nm: getattr(p, nm)())
    for norm in ("l1", "l2", "max", "bit"):
        add(f"normalize-{norm}", lambda p, norm=norm: p.normalize("time", norm=norm))
    add("standardize", lambda p: p.standardize("time"))
    add("dropna", lambda p: p.dropna("time"))
    add("dropna-all", lambda p: p.dropna("distance", how="all"))
    add("fillna", lambda p: p.fillna(3))
    add("pad", lambda p: p.pad(time=(2, 3), samples=True))
    add("pad-fft", lambda p: p.pad(time="fft"))
    add("pad-noexp", lambda p: p.pad(time=(1, 1), samples=True, expand_coords=False, constant_values=7))
    add("roll", lambda p: p.roll(time=2, samples=True))
    add("roll-upd", lambda p: p.roll(time=2, samples=True, update_coord=True))
    cond = np.arange(patch.data.size).reshape(patch.data.shape) % 2 == 0
    add("where-arr", lambda p: p.where(cond, 5), cond)
    add("where-patch", lambda p: p.where(p > 1, p * 0))
    add("full", lambda p: p.full(4.0))
    add("demean", lambda p: p.demean("time"))
    add("demedian", lambda p: p.demedian("time"))
    add("detrend", lambda p: p.detrend("time"))
    add("detrend-const", lambda p: p.detrend("time", type="constant"))
    # --- arithmetic
    import operator as o
    for nm in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "gt", "le"):
        f = getattr(o, nm)
        add(f"op_{nm}-scalar", lambda p, f=f: f(p, 3))
        add(f"op_r{nm}-scalar", lambda p, f=f: f(2, p))
    add("op_neg", lambda p: -p)
    oth = np.full(patch.data.shape, 2.0)
    add("op_add-arr", lambda p: p + oth, oth)
    other = patch.select(time=(0, 20), samples=True)
    add("op_add-patch", lambda p: p + other, other)
    add("op_rsub-patch", lambda p: other - p, other)
    add("op_quant", lambda p: p * q("3 m"))
    add("add-method", lambda p: p.add(4), method="add")
    add("add-out", lambda p: np.add(p, oth), oth, method="add")
    add("np-mean", lambda p: np.mean(p), method="mean")
    add("ufunc-reduce", lambda p: p.add.reduce(dim="time"))
    add("ufunc-accumulate", lambda p: p.add.accumulate(dim="time"))
    add("equals", lambda p: p.equals(other), other)
    add("bool-cmp", lambda p: (p > 1))
    # --- aggregation
    for nm in ("min", "max", "mean", "median", "std", "sum", "any", "all", "first", "last"):
        add(f"{nm}-time", lambda p, nm=nm: getattr(p, nm)("time"))
    add("aggregate-sq", lambda p: p.aggregate("time", "mean", dim_reduce="squeeze"))
    add("aggregate-none", lambda p: p.aggregate(None, np.sum))
    add("aggregate-meandim", lambda p: p.aggregate("time", "max", dim_reduce="mean"))
    # --- filters and windows
    add("pass_filter", lambda p: p.pass_filter(time=(5, 20)))
    add("pass_filter-low", lambda p: p.pass_filter(time=(None, 20), zerophase=False))
    add("pass_filter-bad", lambda p: p.pass_filter(time=(30, 20)))
    add("sobel_filter", lambda p: p.sobel_filter("time"))
    add("median_filter", lambda p: p.median_filter(time=3, samples=True))
    add("notch_filter", lambda p: p.notch_filter(time=20, q=30))
    add("savgol_filter", lambda p: p.savgol_filter(polyorder=2, time=5, samples=True))
    add("gaussian_filter", lambda p: p.gaussian_filter(time=2, samples=True))
    add("hampel_filter", lambda p: p.hampel_filter(time=3, samples=True, threshold=1.0))
    add("hampel_filter-exact", lambda p: p.hampel_filter(time=3, distance=3, samples=True, threshold=1.0, approximate=False))
    add("wiener_filter", lambda p: p.wiener_filter(time=3, samples=True))
    filt = np.array([100.0, 200.0, 800.0, 900.0])
    add("slope_filter", lambda p: p.slope_filter(filt=filt), filt)
    add("rolling-mean", lambda p: p.rolling(time=4, samples=True).mean())
    add("rolling-np", lambda p: p.rolling(time=4, step=2, samples=True, engine="numpy").max())
    add("rolling-apply", lambda p: p.rolling(time=3, samples=True, engine="numpy").apply(np.median))
    add("taper", lambda p: p.taper(time=0.1))
    add("taper-two", lambda p: p.taper(time=(0.1, None)))
    add("taper_range", lambda p: p.taper_range(time=(0.05, 0.2), relative=True))
    add("taper_range-inv", lambda p: p.taper_range(time=(2, 5, 10, 12), samples=True, invert=True))
    add("line_mute", lambda p: p.line_mute(time=(0.05, 0.2)))
    add("line_mute-sm", lambda p: p.line_mute(time=(0.05, 0.2), smooth=0.02))
    add("slope_mute", lambda p: p.slope_mute(slopes=(10, 100)))
    add("whiten", lambda p: p.whiten(time=(5, 30), smooth_size=5))
    add("decimate", lambda p: p.decimate(time=2))
    add("decimate-none", lambda p: p.decimate(time=2, filter_type=None, copy=False))
    add("interpolate", lambda p: p.interpolate(time=t2), *( [t2] if t is not None else [])) if (t is not None and (t2 := tt[:-1] + (tt[1] - tt[0]) // 2) is not None) else None
    add("resample", lambda p: p.resample(time=sec(0.02)))
    add("resample-samples", lambda p: p.resample(time=30, samples=True))
    sh = np.arange(ND) * 1
    add("align_to_coord", lambda p: p.update_coords(shift=("distance", sh)).align_to_coord(time="shift", samples=True), sh)
    add("align_to_coord-full", lambda p: p.update_coords(shift=("distance", sh)).align_to_coord(time="shift", samples=True, mode="full"), sh)
    add("correlate", lambda p: p.correlate(distance=0, samples=True))
    add("correlate_shift", lambda p: p.dft("time").correlate(distance=0, samples=True).idft().correlate_shift("time"))
    # --- transforms
    add("dft", lambda p: p.dft("time"))
    add("dft-real", lambda p: p.dft("time", real=True))
    add("dft-nopad", lambda p: p.dft(None, pad=False))
    add("dft-psd", lambda p: p.dft("time", real=True, output="PSD", db=True))
    add("idft", lambda p: p.dft("time").idft())
    add("rfft", lambda p: p.rfft("time"))
    add("stft", lambda p: p.stft(time=10, overlap=5, samples=True))
    add("istft", lambda p: p.stft(time=10, overlap=5, samples=True).istft())
    add("spectrogram", lambda p: p.spectrogram("time", nperseg=8))
    add("integrate", lambda p: p.integrate("time"))
    add("integrate-def", lambda p: p.integrate("time", definite=True))
    add("integrate-all", lambda p: p.integrate(None))
    add("differentiate", lambda p: p.differentiate("time"))
    add("differentiate-4", lambda p: p.differentiate("time", order=4))
    add("differentiate-step", lambda p: p.differentiate("distance", step=2))
    add("hilbert", lambda p: p.hilbert("time"))
    add("envelope", lambda p: p.envelope("time"))
    add("phase_weighted_stack", lambda p: p.phase_weighted_stack("distance"))
    add("stalta", lambda p: p.stalta(time=(4, 10), samples=True))
    add("kurtosis", lambda p: p.kurtosis(time=10, samples=True))
    add("fbe", lambda p: p.fbe(window=0.1, time=(5, 30)))
    add("velocity_to_strain_rate", lambda p: p.velocity_to_strain_rate())
    add("velocity_to_strain_rate_edgeless", lambda p: p.velocity_to_strain_rate_edgeless())
    add("radians_to_strain", lambda p: p.set_units("radians").radians_to_strain(gauge_length=10))
    vel = np.array([100.0, 200.0, 300.0])
    add("dispersion_phase_shift", lambda p: p.dispersion_phase_shift(vel, approx_resolution=2.0), vel)
    add("tau_p", lambda p: p.tau_p(vel), vel)
    # --- conversions/others
    add("str", lambda p: str(p))
    add("get_patch_name", lambda p: p.get_patch_name())
    add("array", lambda p: np.asarray(p))
    add("concat", lambda p: dc.spool([p, other]).concatenate(time=None)[0], other)
    add("spool-chunk", lambda p: list(dc.spool([p]).chunk(time=0.1)))
    add("to_spool-sel", lambda p: list(dc.spool([p, other]).select(time=(T0 + sec(0.1), None))), other)
    add("pipe", lambda p: p.pipe(lambda x: x.abs()))
    return [x for x in out if x is not None]
