"""C13: forward and inverse transforms undo each other and label their axes right."""
from __future__ import annotations

import itertools

import numpy as np

from mc.core import Skip, expect
from mc.gen import same
from mc.monitor import consistent
from mc.ref import T0, sec

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration on the real code of every unit impulse (the transforms are linear, so the impulses decide all data) x all lengths, axes, label kinds, directions, padding, window and hop settings and all histories of forward/inverse transforms, against sums evaluated at the labels the code returns"
ASSUMPTIONS = ["numbers compared to 1e-9 of the largest value", "the spectra of lengths up to the bound stand for longer ones: padding, parity and prime lengths all occur", "stft phase convention is left to the inverse; its magnitudes and labels are compared"]
BOUNDS = {
    "quick": "dft lengths 1..9 x 10 label kinds x real/pad/output flags x data kinds; 2-D and 3-D dft over all dims and dim orders; all dft/idft histories of depth <= 4; stft lengths 2..7 x all windows, overlaps and 3 tapers; integrate/differentiate lengths 2..6 x 15 label kinds x all dims x steps <= 3 x dtypes",
    "thorough": "dft lengths 1..34; histories of depth <= 6; stft lengths 2..14; integrate/differentiate lengths 2..11, steps <= 5",
}

NS = 10**9


# label kinds: n -> (values, units); positions are x[k] in seconds or in the numbers themselves
def _dt(step, start=T0):
    return lambda n: start + np.arange(n) * np.timedelta64(step, "ns")


KINDS = {
    "dt": (_dt(NS // 100), "s"),
    "dt_odd": (_dt(3 * 10**6), "s"),
    "dt_rev": (lambda n: (T0 + np.arange(n) * sec(0.5))[::-1], "s"),
    "dt_old": (_dt(NS // 2, np.datetime64("1960-01-01", "ns")), "s"),
    "td": (lambda n: np.arange(n) * sec(0.25) - sec(1), "s"),
    "f": (lambda n: np.arange(n) * 0.5 + 3, "m"),
    "f_neg": (lambda n: np.arange(n) * 0.25 - 7, "m"),
    "f_rev": (lambda n: 10 - np.arange(n) * 2.0, "m"),
    "i": (lambda n: np.arange(n) * 10 + 5, None),
    "f0": (lambda n: np.arange(n) * 1.0, None),
}
SPACE = np.array([0, 1, 3, 3.5, 7, 8, 8.25, 12, 20, 21, 23])
UNEVEN = {
    "u": (lambda n: SPACE[:n] * 2 - 3, "m"),
    "u_rev": (lambda n: (SPACE[:n] * 2 - 3)[::-1], "m"),
    "u_dt": (lambda n: T0 + (SPACE[:n] * 10**6).astype("timedelta64[ns]"), "s"),
    "u_dt_rev": (lambda n: (T0 + (SPACE[:n] * NS).astype("timedelta64[ns]"))[::-1], "s"),
    "u_i": (lambda n: (SPACE[:n] * 4).astype(int), None),
}
ALLKINDS = {**KINDS, **UNEVEN}


def pos(values):
    """Positions relative to the first label, as floats (seconds for times)."""
    v = np.asarray(values)
    if v.dtype.kind in "mM":
        return (v.astype("i8") - v.astype("i8")[:1]) / 1e9
    return v.astype(float) - float(v[0])


def mkcoord(kind, n):
    import dascore as dc
    from dascore.core import get_coord

    fn, units = ALLKINDS[kind]
    if n == 1:  # a single label needs its step given
        two = fn(2)
        if kind in UNEVEN:
            raise Skip
        step = two[1] - two[0]
        if kind.endswith("rev"):
            two = two[::-1]
        return get_coord(start=fn(1)[0], step=step, shape=(1,), units=units)
    assert dc
    return get_coord(data=fn(n), units=units)


def mk(dims, kinds, data, units="m/s", extra=True):
    import dascore as dc

    coords = {}
    for d, k, n in zip(dims, kinds, data.shape):
        coords[d] = mkcoord(k, n)
        if extra:
            coords["on_" + d] = (d, np.arange(n) + 0.5)
    if extra and len(dims) > 1:
        coords["on_all"] = (dims, np.arange(data.size, dtype=float).reshape(data.shape))
        coords["free"] = (None, np.array([3.0, 1.0]))
    return dc.Patch(data=data, coords=coords, dims=dims, attrs=dict(tag="a", data_units=units, data_type="velocity", custom=3))


def vals(p, d):
    return np.asarray(p.get_coord(d).values)


def near(a, b, what, tol=1e-9, scale=1e-30):
    a, b = np.asarray(a), np.asarray(b)
    expect(a.shape == b.shape, f"{what}: shape", a.shape, b.shape)
    scale = max(scale, float(np.max(np.abs(b))) if b.size else 0, float(np.max(np.abs(a))) if a.size else 0)
    expect(bool(np.all(np.abs(a - b) <= tol * scale)), f"{what}: values differ", a.tolist(), b.tolist())


def q(x):
    import dascore as dc

    return dc.get_quantity(x)


def same_units(a, b, what):
    a, b = q(a), q(b)
    if a is None or b is None:
        expect(a is None and b is None, f"{what} units", a, b)
        return
    expect(a.dimensionality == b.dimensionality and abs((a / b).to_base_units().magnitude - 1) < 1e-12, f"{what} units", a, b)


def unit_product(patch, dims, power):
    u = q(patch.attrs.data_units)
    for d in dims:
        c = q(patch.get_coord(d).units)
        if c is not None and u is not None:
            u = u * c if power > 0 else u / c
    return u


def check_rest(p, out, changed, what):
    """Coordinates of the untouched dims, and unrelated attributes, stay."""
    for d in p.dims:
        if d in changed:
            continue
        for n in (d, "on_" + d):
            if n in p.coords.coord_map:
                expect(n in out.coords.coord_map and same(vals(out, n), vals(p, n)), f"{what}: coord {n}")
                expect(out.coords.dim_map[n] == p.coords.dim_map[n], f"{what}: dims of {n}")
                same_units(out.get_coord(n).units, p.get_coord(n).units, f"{what}: {n}")
    if "free" in p.coords.coord_map:
        expect("free" in out.coords.coord_map and same(vals(out, "free"), vals(p, "free")), f"{what}: coord free")
    expect(out.attrs.tag == "a" and out.attrs.custom == 3, f"{what}: attrs")
    consistent(out, what + ": ")


def impulses(shape, axes, dtype):
    """All unit impulses over the given axes, with one batch index at the end."""
    n = int(np.prod([shape[a] for a in axes]))
    data = np.zeros((*shape, n), dtype=dtype)
    for i, idx in enumerate(itertools.product(*[range(shape[a]) for a in axes])):
        data[(*idx, i)] = 1
    return data


def sample_data(shape, dtype):
    n = int(np.prod(shape))
    a = ((np.arange(n) * 37 + 11) % 23 - 9).astype(float).reshape(shape)
    if np.dtype(dtype).kind == "c":
        a = a + 1j * ((np.arange(n) * 17 + 3) % 19 - 8).reshape(shape)
    return a.astype(dtype)


def fourier_sum(data, x, f, axis, dx):
    """sum_k data[k] exp(-2 pi i f x_k) dx along axis, evaluated at labels f."""
    k = np.exp(-2j * np.pi * np.outer(f, x)) * dx
    return np.moveaxis(np.tensordot(k, np.moveaxis(data, axis, 0), axes=(1, 0)), 0, axis)


def check_freqs(f, n, dx, real, pad, what):
    """The labels are the complete set of frequencies of some length N >= n."""
    f = np.asarray(f, dtype=float)
    sizes = [n] if not pad else range(n, 2 * n + 1)
    for big in sizes:
        js = np.arange(big // 2 + 1) if real else np.arange(big) - big // 2
        want = js / (big * dx)
        if len(f) == len(want) and np.allclose(f, want, rtol=1e-9, atol=1e-12 / abs(dx)):
            return big
    expect(False, f"{what}: frequency labels", f.tolist(), n, dx)


def step_of(kind, n):
    fn, _ = ALLKINDS[kind]
    return float(pos(fn(2))[1]) if not kind.endswith("rev") else -abs(float(pos(fn(2))[1]))


def shards(tier):
    out = []
    top = 9 if tier == "quick" else 34
    for kind in KINDS:
        for part in range(3):
            ns = [n for n in range(1, top + 1) if n % 3 == part]
            out.append(dict(kind="dft", label=kind, ns=ns))
    for i, perm in enumerate(itertools.permutations(("distance", "time", "wave"))):
        for shape in (((3, 4, 2), (4, 3, 5), (7, 2, 1))[i % 3],) if tier == "quick" else ((3, 4, 2), (4, 3, 5), (7, 2, 1), (5, 7, 2), (2, 2, 2), (11, 2, 3)):
            out.append(dict(kind="multi", dims=list(perm), shape=list(shape)))
    depth = 4 if tier == "quick" else 6
    for first in range(len(HOPS)):
        for shape in ((3, 4), (7, 5), (2, 11)):
            for lab in (("f", "dt"), ("f_rev", "td"), ("i", "dt_rev")):
                if tier == "quick" and (shape, lab[0]) not in (((3, 4), "f_rev"), ((7, 5), "f"), ((2, 11), "i")):
                    continue
                out.append(dict(kind="hist", first=first, depth=depth, shape=list(shape), lab=list(lab)))
    top = 7 if tier == "quick" else 14
    for kind in KINDS:
        for n in range(2, top + 1):
            out.append(dict(kind="stft", label=kind, n=n))
    top = 6 if tier == "quick" else 11
    for kind in ALLKINDS:
        for n in range(2, top + 1):
            out.append(dict(kind="calc", label=kind, n=n, steps=3 if tier == "quick" else 5))
    out += [dict(kind="old", label=k) for k in KINDS]
    out += [dict(kind="reject")]
    return out


def run(shard, ctx):
    import warnings

    warnings.simplefilter("ignore")
    globals()["run_" + shard["kind"]](shard, ctx)


# ------------------------------------------------------------------ dft in one dimension
def run_dft(shard, ctx):
    kind = shard["label"]
    for n in shard["ns"]:
        dx = step_of(kind, n)
        x = pos(ALLKINDS[kind][0](n))
        for dtype, real, pad, order in itertools.product(("f8", "c16", "i4", "f4"), (None, True, "time"), (True, False), (0, 1)):
            if dtype == "c16" and real:
                continue
            if dtype in ("i4", "f4") and (order or real == "time"):
                continue
            for units in ("m/s", None):
                if units is None and (order or dtype != "f8"):
                    continue
                spec = dict(op="dft", kind=kind, n=n, dtype=dtype, real=real, pad=pad, order=order, units=units)
                with ctx.case(spec):
                    ctx.state(repr(spec))
                    one = impulses((n,), (0,), dtype)
                    data = np.concatenate([one, sample_data((n, 1), dtype)], axis=1)
                    if dtype == "c16":
                        data = np.concatenate([data, 1j * one], axis=1)
                    dims = ("time", "wave")
                    kinds = (kind, "i")
                    if order:
                        data, dims, kinds = data.T, dims[::-1], kinds[::-1]
                    p = mk(dims, kinds, data, units)
                    ax = dims.index("time")
                    tol = 1e-9 if dtype != "f4" else 1e-5
                    out = p.dft("time", real=real, pad=pad)
                    ctx.trans()
                    what = "dft"
                    expect(out.dims == tuple("ft_time" if d == "time" else d for d in dims), "dft dims", out.dims)
                    f = vals(out, "ft_time")
                    check_freqs(f, n, dx, bool(real), pad, what)
                    near(out.data, fourier_sum(data, x, f, ax, dx), "dft data", tol)
                    same_units(out.attrs.data_units, unit_product(p, ["time"], 1), "dft data")
                    want = q(p.get_coord("time").units)
                    same_units(out.get_coord("ft_time").units, None if want is None else 1 / want, "dft label")
                    expect(out.attrs.data_type == "fourier_transform", "dft data_type", out.attrs.data_type)
                    check_rest(p, out, ("time",), what)
                    for arg in ((), ("time",), ("ft_time",), (["time"],)) if n == 3 else ((),):
                        back = out.idft(*arg)
                        ctx.trans()
                        restored(p, back, f"idft{arg}", tol)
                    for output in ("AS", "PS", "PSD"):
                        if dtype in ("i4", "f4") or order or (n % 2 and n > 5):
                            continue
                        spec_out = p.dft("time", real=real, pad=pad, output=output)
                        ctx.trans()
                        big = check_freqs(vals(spec_out, "ft_time"), n, dx, bool(real), pad, output)
                        amp = np.abs(fourier_sum(data, x, f, ax, dx))
                        t = abs(big * dx)
                        want = {"AS": amp / t, "PS": (amp / t) ** 2, "PSD": amp**2 / t}[output]
                        near(spec_out.data, want, output, max(tol, 1e-8))
                        if units:
                            u = q(units)
                            fu = q(spec_out.get_coord("ft_time").units)
                            wu = {"AS": u, "PS": u**2, "PSD": u**2 if fu is None else u**2 / fu}[output]
                            same_units(spec_out.attrs.data_units, wu, output)


def restored(p, back, what, tol=1e-9, lost=("time",)):
    expect(back.dims == p.dims, f"{what}: dims", back.dims, p.dims)
    near(back.data, np.asarray(p.data), f"{what}: data", tol)
    for d in p.dims:
        expect(same(vals(back, d), vals(p, d)), f"{what}: labels of {d}", vals(back, d), vals(p, d))
        same_units(back.get_coord(d).units, p.get_coord(d).units, f"{what}: {d}")
    same_units(back.attrs.data_units, p.attrs.data_units, f"{what}: data")
    expect(back.attrs.data_type == p.attrs.data_type, f"{what}: data_type", back.attrs.data_type)
    extra = set(back.coords.coord_map) - set(p.coords.coord_map)
    expect(not extra, f"{what}: left over coords", extra)
    extra = {k for k in dict(back.attrs) if k not in dict(p.attrs)}
    expect(not extra, f"{what}: left over attrs", extra)
    check_rest(p, back, lost, what)


# ------------------------------------------------------------------ dft over several dims
LABS = dict(distance="f", time="dt", wave="i")
LABS2 = dict(distance="f_rev", time="td", wave="f_neg")


def run_multi(shard, ctx):
    dims, shape = tuple(shard["dims"]), tuple(shard["shape"])
    for labs, dtype, pad in itertools.product((LABS, LABS2), ("f8", "c16"), (True, False)):
        for r in (1, 2, 3):
            for sub in itertools.permutations(dims, r):
                reals = [None] if dtype == "c16" else [None, True, *sub]
                for real in reals:
                    arg = None if r == 3 and sub == dims else list(sub)
                    spec = dict(op="dft", dims=dims, shape=shape, labs=labs, dtype=dtype, pad=pad, dim=arg, real=real)
                    with ctx.case(spec):
                        ctx.state(repr(spec))
                        p = mk(dims, [labs[d] for d in dims], sample_data(shape, dtype))
                        out = p.dft(arg, real=real, pad=pad)
                        ctx.trans()
                        rd = sub[-1] if real is True else real
                        want = np.asarray(p.data).astype(complex)
                        for d in sub:
                            n = shape[dims.index(d)]
                            dx = step_of(labs[d], n)
                            f = vals(out, "ft_" + d)
                            check_freqs(f, n, dx, d == rd, pad, f"dft {d}")
                            want = fourier_sum(want, pos(ALLKINDS[labs[d]][0](n)), f, dims.index(d), dx)
                        near(out.data, want, "dft data")
                        same_units(out.attrs.data_units, unit_product(p, sub, 1), "dft data")
                        expect(out.dims == tuple("ft_" + d if d in sub else d for d in dims), "dft dims", out.dims)
                        check_rest(p, out, sub, "dft")
                        restored(p, out.idft(), "idft", lost=sub)
                        restored(p, out.idft(list(sub)), "idft dims", lost=sub)
                        ctx.trans(2)
                        # one after the other, in every order
                        if r == 2:
                            for seq in itertools.permutations(sub):
                                if rd is not None and seq[-1] != rd:
                                    continue  # the real half spectrum has to be the last to go
                                b = out
                                for d in seq:
                                    b = b.idft(d)
                                    ctx.trans()
                                restored(p, b, f"idft {seq}", lost=sub)


# ------------------------------------------------------------------ histories of transforms
HOPS = [("dft", "time", None, True), ("dft", "time", None, False), ("dft", "time", True, True), ("dft", "time", True, False), ("dft", "distance", None, True), ("dft", "distance", None, False), ("dft", "distance", True, False), ("dft", None, None, True), ("dft", None, "time", False), ("idft", "time", None, None), ("idft", "distance", None, None), ("idft", None, None, None), ("transpose", None, None, None)]


def run_hist(shard, ctx):
    """Explore all transform histories; the model is which dims are transformed, and the exact signal."""
    dims = ("distance", "time")
    labs = dict(zip(dims, shard["lab"]))
    shape = tuple(shard["shape"])
    p0 = mk(dims, [labs[d] for d in dims], sample_data(shape, "f8"))
    base = np.asarray(p0.data)

    def enabled(state, op, patch):
        order, ft, real = state
        name, dim, re, pad = op
        if name == "dft":
            todo = [d for d in ([dim] if dim else dims) if d not in ft]
            want_real = (dim or "time") if re is True else re
            # a real transform is only defined while the data are real
            if ft and dim is None:  # what this means for the transformed dims is not defined
                return False
            return bool(todo) and not (re and (np.iscomplexobj(patch.data) or ft or want_real not in todo))
        if name == "idft":
            todo = [dim] if dim else list(ft)
            if not todo or any(d not in ft for d in todo):
                return False
            # the half spectrum can only go last
            return not (real and real in todo and len(todo) < len(ft))
        return True

    def step(state, patch, op):
        order, ft, real = state
        name, dim, re, pad = op
        if name == "dft":
            todo = tuple(d for d in ([dim] if dim else dims) if d not in ft)
            out = patch.dft(dim, real=re, pad=pad)
            return (order, tuple(sorted(ft + todo)), real or ((dim or "time") if re is True else re)), out
        if name == "idft":
            out = patch.idft(dim)
            todo = (dim,) if dim else ft
            ft = tuple(d for d in ft if d not in todo)
            return (order, ft, real if real in ft else None), out
        return (order[::-1], ft, real), patch.transpose()

    def check(state, patch, hist):
        order, ft, real = state
        want = base.astype(complex)
        expect(patch.dims == tuple("ft_" + d if d in ft else d for d in order), "dims", patch.dims, state)
        for d in ft:
            ax = dims.index(d)
            n = shape[ax]
            dx = step_of(labs[d], n)
            f = vals(patch, "ft_" + d)
            check_freqs(f, n, dx, d == real, True, f"labels of ft_{d}")
            want = fourier_sum(want, pos(ALLKINDS[labs[d]][0](n)), f, ax, dx)
        if order != dims:
            want = want.T
        near(patch.data, want, "data")
        ref = p0 if order == dims else p0.transpose()
        for d in dims:
            if d not in ft:
                expect(same(vals(patch, d), vals(p0, d)), f"labels of {d}", vals(patch, d))
        same_units(patch.attrs.data_units, unit_product(p0, ft, 1), "data")
        if not ft:
            back = patch
            names = {d for o in hist if o[0] == "dft" for d in ([o[1]] if o[1] else dims)}
            restored(ref, back, "restored", lost=names)
        else:
            expect(patch.attrs.data_type == "fourier_transform", "data_type", patch.attrs.data_type)
            consistent(patch)

    def go(state, patch, hist, depth):
        for i, op in enumerate(HOPS):
            if not hist and i != shard["first"]:
                continue
            if not enabled(state, op, patch) or (op[0] == "transpose" and hist and hist[-1][0] == "transpose"):
                continue
            h = [*hist, op]
            nxt = None
            with ctx.case(dict(history=h, shape=shape, labs=labs)):
                ctx.trans()
                nxt = step(state, patch, op)
                ctx.state((nxt[0], shape, str(labs), tuple(sorted(nxt[1].coords.coord_map)), nxt[1].shape))
                check(*nxt, h)
            if nxt is not None and depth > 1:
                go(*nxt, h, depth - 1)
        ctx.trace()

    go((dims, (), None), p0, [], shard["depth"])


# ------------------------------------------------------------------ stft
def run_stft(shard, ctx):
    from scipy.signal.windows import get_window

    import dascore as dc

    kind, n = shard["label"], shard["n"]
    dx = step_of(kind, n)
    lab = ALLKINDS[kind][0](n)
    pc = dc.get_quantity("percent")
    for dtype, order in itertools.product(("f8", "c16"), (0, 1)):
        one = impulses((n,), (0,), dtype)
        data = np.concatenate([one, sample_data((n, 1), dtype)], axis=1)
        dims, kinds = ("time", "wave"), (kind, "f0")
        if order:
            data, dims, kinds = data.T, dims[::-1], kinds[::-1]
        ax = dims.index("time")
        p = mk(dims, kinds, data)
        for w in range(1, n + 1):
            overlaps = [("s", o) for o in range(w)] + [("n", None), ("p", 50), ("p", 0)]
            for how, ov in overlaps:
                for taper in ("boxcar", "hann", "array"):
                    if order and (dtype == "c16" or taper != "boxcar") or taper == "hann" and w < 4:
                        continue
                    if taper == "array" and how != "s":
                        continue
                    spec = dict(op="stft", kind=kind, n=n, dtype=dtype, order=order, window=w, overlap=(how, ov), taper=taper)
                    with ctx.case(spec):
                        ctx.state(repr(spec))
                        win = np.ones(w) if taper == "boxcar" else get_window("hann", w, fftbins=False) if taper == "hann" else np.arange(1, w + 1) / w
                        arg = win if taper == "array" else taper
                        hop = w - ov if how == "s" else w if how == "n" or ov == 0 else w - int(round(w / 2))
                        ovl = ov if how != "p" else ov * pc
                        if hop < 1:
                            continue
                        out = p.stft(time=w, samples=True, overlap=ovl, taper_window=arg)
                        ctx.trans()
                        expect(out.dims == (*tuple("ft_time" if d == "time" else d for d in dims), "time"), "stft dims", out.dims)
                        f, t = vals(out, "ft_time"), vals(out, "time")
                        check_freqs(f, w, dx, dtype == "f8", False, "stft")
                        same_units(out.attrs.data_units, unit_product(p, ["time"], 1), "stft data")
                        same_units(out.get_coord("time").units, p.get_coord("time").units, "stft time")
                        check_rest(p, out, ("time",), "stft")
                        # the sample each window is centred on follows from its time label
                        mid = relpos(t, lab) / dx
                        c = np.round(mid).astype(int)
                        expect(bool(np.all(np.abs(mid - c) < 1e-4)), "stft time labels off the samples", mid.tolist())
                        expect(len(c) < 2 or bool(np.all(np.diff(c) == hop)), "stft windows not one hop apart", c.tolist(), hop)
                        on = np.nonzero(win)[0] - w // 2
                        expect(c[0] + on[0] <= 0 and c[-1] + hop + on[0] >= n, "stft windows do not cover the data", c.tolist())
                        want = np.zeros((len(f), len(c), data.shape[1 - ax]), dtype=complex)
                        src = np.moveaxis(data, ax, 0)
                        for j, cc in enumerate(c):
                            for k in range(n):
                                i = k - cc + w // 2
                                if 0 <= i < w:
                                    want[:, j] += abs(dx) * win[i] * np.exp(-2j * np.pi * np.asarray(f, float) * k * dx)[:, None] * src[k][None]
                        got = np.moveaxis(np.asarray(out.data), [out.get_axis("ft_time"), out.get_axis("time")], [0, 1])
                        near(np.abs(got), np.abs(want), "stft magnitude")
                        if invertible(win, hop):
                            for q_, back in (("istft", out.istft()), *((f"istft {o}", out.transpose(*o).istft()) for o in (itertools.permutations(out.dims) if n < 5 else ()))):
                                if back is None:
                                    continue
                                ctx.trans()
                                if q_ != "istft":
                                    back = back.transpose(*p.dims)
                                restored(p, back, q_)


def relpos(t, lab):
    t, lab = np.asarray(t), np.asarray(lab)
    if lab.dtype.kind in "mM":
        return (t.astype("i8") - lab.astype("i8")[0]) / 1e9
    return t.astype(float) - float(lab[0])


def invertible(win, hop):
    s = np.zeros(hop)
    for i, v in enumerate(win):
        s[i % hop] += abs(v) ** 2
    return bool(np.all(s > 1e-3))


# ------------------------------------------------------------------ integrate / differentiate
def run_calc(shard, ctx):
    kind, n = shard["label"], shard["n"]
    lab = ALLKINDS[kind][0](n)
    x = pos(lab)
    for order, dtype in itertools.product((0, 1, 2), ("f8", "i8", "c16", "f4", "u1")):
        if order and dtype not in ("f8", "i8"):
            continue
        one = impulses((n,), (0,), dtype)
        data = np.concatenate([one, sample_data((n, 2), dtype if dtype != "u1" else "f8").real.astype(dtype) if dtype != "c16" else sample_data((n, 2), dtype)], axis=1)
        if dtype == "u1":
            data = data * np.uint8(200)
        dims, kinds = ("time", "wave"), (kind, "f0")
        if order == 1:
            data, dims, kinds = data.T, dims[::-1], kinds[::-1]
        if order == 2:
            data, dims, kinds = np.stack([data, data * 2], 0), ("distance", "time", "wave"), ("f", kind, "f0")
        ax = dims.index("time")
        tol = 1e-9 if dtype != "f4" else 1e-5
        p = mk(dims, kinds, data)
        src = np.moveaxis(data.astype(complex), ax, 0)
        trap = (src[1:] + src[:-1]) * (np.diff(x) / 2).reshape(-1, *[1] * (src.ndim - 1))
        base = dict(kind=kind, n=n, dtype=dtype, order=order)
        for arg in ("time", ["time"], ("time",)):
            with ctx.case(dict(op="integrate", definite=False, dim=arg, **base)):
                ctx.state(repr(("int", arg, base)))
                out = p.integrate(arg, definite=False)
                ctx.trans()
                want = np.concatenate([np.zeros((1, *src.shape[1:])), np.cumsum(trap, axis=0)])
                near(out.data, np.moveaxis(want, 0, ax), "indefinite integral", tol)
                same_units(out.attrs.data_units, unit_product(p, ["time"], 1), "integral")
                expect(out.dims == p.dims and same(vals(out, "time"), lab), "labels")
                check_rest(p, out, (), "integrate")
            with ctx.case(dict(op="integrate", definite=True, dim=arg, **base)):
                ctx.state(repr(("def", arg, base)))
                out = p.integrate(arg, definite=True)
                ctx.trans()
                # documented: from the smallest to the largest label
                want = trap.sum(axis=0, keepdims=True) * (1 if x[-1] >= 0 else -1)
                near(out.data, np.moveaxis(want, 0, ax), "definite integral", tol)
                same_units(out.attrs.data_units, unit_product(p, ["time"], 1), "integral")
                expect(out.dims == p.dims, "dims")
                t = vals(out, "time")
                expect(t.shape == (1,) and lab.min() <= t[0] <= lab.max(), "label of the integral", t)
                expect(same(vals(out, "pre_integrate_time_min"), np.asarray([lab.min()])) and same(vals(out, "pre_integrate_time_max"), np.asarray([lab.max()])), "limits of the integral")
                check_rest(p, out, ("time",), "integrate")
        # both dims, and one dim after the other
        if order < 2 and dtype in ("f8", "i8"):
            with ctx.case(dict(op="integrate", dim=None, **base)):
                a = p.integrate(None)
                b = p.integrate("time").integrate("wave")
                c = p.integrate(["wave", "time"])
                ctx.trans(4)
                near(a.data, b.data, "over all dims")
                near(c.data, b.data, "over all dims, other order")
                d = p.integrate(None, definite=True)
                e = p.integrate("time", definite=True).integrate("wave", definite=True)
                near(d.data, e.data, "definite over all dims")
        for step in range(1, shard["steps"] + 1):
            if len(x[step - 1::step]) < 3:
                continue
            for arg in ("time", ("time",)):
                with ctx.case(dict(op="differentiate", step=step, dim=arg, **base)):
                    ctx.state(repr(("diff", step, arg, base)))
                    out = p.differentiate(arg, step=step)
                    ctx.trans()
                    want = np.zeros_like(src)
                    for k in range(n):
                        tri = [k - step, k, k + step]
                        if tri[0] < 0:
                            tri = [k, k + step, k + 2 * step]
                        elif tri[2] >= n:
                            tri = [k - 2 * step, k - step, k]
                        want[k] = lagrange(x, src, tri, k)
                    near(out.data, np.moveaxis(want, 0, ax), "derivative", tol, 1 / np.abs(x[1:]).max())
                    same_units(out.attrs.data_units, unit_product(p, ["time"], -1), "derivative")
                    expect(out.dims == p.dims and same(vals(out, "time"), lab), "labels")
                    check_rest(p, out, (), "differentiate")
        if n >= 6 and dtype in ("f8", "i8") and not (kind.endswith("rev") and kind in KINDS):
            # higher orders are exact for polynomials up to their order
            for deg in range(5):
                with ctx.case(dict(op="differentiate", acc=4, deg=deg, **base)):
                    ctx.state(repr(("acc", deg, base)))
                    poly = np.broadcast_to((x**deg)[:, None], (n, 3))
                    want = np.broadcast_to((deg * x ** max(deg - 1, 0))[:, None], (n, 3))
                    pp = mk(dims[-2:], kinds[-2:], poly.copy() if order != 1 else poly.T.copy())
                    out = pp.differentiate("time", order=4)
                    ctx.trans()
                    near(out.data, want if order != 1 else want.T, "4th order derivative", 1e-7, 1 / abs(x[1]))


def lagrange(x, y, tri, k):
    """Derivative at x[k] of the parabola through the three points."""
    a, b, c = (x[i] for i in tri)
    z = x[k]
    return (y[tri[0]] * ((z - b) + (z - c)) / ((a - b) * (a - c)) + y[tri[1]] * ((z - a) + (z - c)) / ((b - a) * (b - c)) + y[tri[2]] * ((z - a) + (z - b)) / ((c - a) * (c - b)))


# ------------------------------------------------------------------ deprecated transforms
def run_old(shard, ctx):
    kind = shard["label"]
    for n, order in itertools.product(range(2, 10), (0, 1)):
        dx = step_of(kind, n)
        data = impulses((n,), (0,), "f8")
        dims, kinds = ("time", "wave"), (kind, "f0")
        if order:
            data, dims, kinds = data.T, dims[::-1], kinds[::-1]
        if n < 2:
            continue
        ax = dims.index("time")
        p = mk(dims, kinds, data, extra=False)
        with ctx.case(dict(op="rfft", kind=kind, n=n, order=order)):
            ctx.state(("rfft", kind, n, order))
            out = p.rfft("time")
            ctx.trans()
            f = vals(out, "ft_time")
            check_freqs(f, n, dx, True, False, "rfft")
            near(out.data, fourier_sum(data, pos(ALLKINDS[kind][0](n)), f, ax, 1), "rfft data")
        if n < 4:
            continue
        for w, ov in ((2, 0), (3, 1), (4, 2), (4, 0)):
            with ctx.case(dict(op="spectrogram", kind=kind, n=n, order=order, window=w, overlap=ov)):
                ctx.state(("spec", kind, n, order, w, ov))
                out = p.spectrogram("time", nperseg=w, noverlap=ov, window="boxcar", detrend=False)
                ctx.trans()
                f, t = vals(out, "ft_time"), vals(out, "time")
                check_freqs(f, w, dx, True, False, "spectrogram")
                mid = relpos(t, ALLKINDS[kind][0](n)) / dx
                # a window of w samples starting at s is labelled s + w / 2
                s = np.round(mid - w / 2).astype(int)
                expect(bool(np.all(np.abs(mid - w / 2 - s) < 1e-4)), "spectrogram time labels", mid.tolist())
                expect(s.tolist() == list(range(0, n - w + 1, w - ov)), "spectrogram windows", s.tolist())
                got = np.moveaxis(np.asarray(out.data), [out.get_axis("ft_time"), out.get_axis("time")], [0, 1])
                src = np.moveaxis(data, ax, 0)
                for j, k in enumerate(s):
                    power = np.abs(fourier_sum(src[k:k + w], np.arange(w) * dx, f, 0, abs(dx))) ** 2 / (w * abs(dx))
                    one = np.array([1 if i == 0 or (w % 2 == 0 and i == w // 2) else 2 for i in range(len(f))])
                    near(got[:, j], power * one[:, None], "spectrogram data")


# ------------------------------------------------------------------ what has to be refused
def run_reject(shard, ctx):
    for kind in UNEVEN:
        p = mk(("time", "wave"), (kind, "f0"), sample_data((6, 2), "f8"))
        for name, call in (("dft", lambda: p.dft("time")), ("stft", lambda: p.stft(time=3, samples=True)), ("dft2", lambda: p.dft(None, real="time")), ("spectrogram", lambda: p.spectrogram("time"))):
            with ctx.case(dict(op=name, kind=kind)):
                ctx.trans()
                ctx.state(("reject", name, kind))
                try:
                    call()
                except Exception as exc:
                    ctx.outcome(type(exc).__name__)
                else:
                    expect(False, f"{name} of unevenly sampled labels was not refused")
    p = mk(("time", "wave"), ("dt", "f0"), sample_data((6, 2), "f8"))
    for output in ("AS", "PS", "PSD"):
        with ctx.case(dict(op="idft", output=output)):
            ctx.trans()
            ctx.state(("reject", output))
            out = p.dft("time", output=output)
            try:
                out.idft()
            except Exception as exc:
                ctx.outcome(type(exc).__name__)
            else:
                expect(False, "idft of a spectrum without phases was not refused")
    for det in (True,):
        with ctx.case(dict(op="istft", detrend=det)):
            ctx.trans()
            out = p.stft(time=4, samples=True, detrend=True)
            try:
                out.istft()
            except Exception as exc:
                ctx.outcome(type(exc).__name__)
            else:
                expect(False, "istft of detrended data was not refused")
