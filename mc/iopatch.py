"""Patches and deep comparison for the storage checks."""
from __future__ import annotations

import numpy as np
import pandas as pd

from mc.core import expect
from mc.gen import same

T0 = np.datetime64("2020-01-02T03:04:05.000000000", "ns")
SEC = np.timedelta64(10**9, "ns")
MS = np.timedelta64(10**6, "ns")

# Attributes which only describe the storage.
STORAGE = ("path", "file_format", "file_version", "dims", "coords")


def attr_dict(attrs):
    out = {k: v for k, v in dict(attrs.model_dump()).items() if k not in STORAGE}
    # flat views of the coordinates are derived
    names = list(attrs.coords)
    return {k: v for k, v in out.items() if not any(k.startswith(n + "_") and k[len(n) + 1:] in ("min", "max", "step", "units", "dtype", "len") for n in names)}


def null(v):
    try:
        return v is None or bool(pd.isnull(v))
    except (TypeError, ValueError):
        return False


def val_eq(a, b):
    if null(a) or null(b):
        return null(a) and null(b)
    if isinstance(a, list | tuple) or isinstance(b, list | tuple):
        try:
            return len(a) == len(b) and all(val_eq(x, y) for x, y in zip(a, b))
        except TypeError:
            return False
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return same(a, b)
    try:
        return bool(a == b)
    except Exception:
        return False


def same_attrs(a, b, what="", skip=()):
    da, db = attr_dict(a), attr_dict(b)
    for k in sorted(set(da) | set(db)):
        if k in skip:
            continue
        expect(val_eq(da.get(k), db.get(k)), f"{what}attribute {k}", repr(da.get(k)), repr(db.get(k)))


def same_coord(a, b, what=""):
    va, vb = np.asarray(a.values), np.asarray(b.values)
    expect(va.dtype == vb.dtype or (va.dtype.kind == vb.dtype.kind and vb.dtype.kind in "mM"), f"{what}: dtype", va.dtype, vb.dtype)
    expect(same(va, vb), f"{what}: labels", va, vb)
    expect(a.units == b.units, f"{what}: units", a.units, b.units)
    if type(b).__name__ == "CoordPartial":
        return
    expect(val_eq(a.step, b.step), f"{what}: step", a.step, b.step)
    for flag in ("sorted", "reverse_sorted", "evenly_sampled"):
        expect(getattr(a, flag) == getattr(b, flag), f"{what}: {flag}")


def same_patch(got, want, what="", skip_attrs=(), attrs=True, dtype=True):
    expect(tuple(got.dims) == tuple(want.dims), f"{what}dims", got.dims, want.dims)
    g, w = np.asarray(got.data), np.asarray(want.data)
    if dtype:
        expect(g.dtype.newbyteorder("=") == w.dtype.newbyteorder("="), f"{what}data dtype", g.dtype, w.dtype)
    expect(same(g, w), f"{what}data", g, w)
    cg, cw = got.coords, want.coords
    expect(set(cg.coord_map) == set(cw.coord_map), f"{what}coordinates", sorted(cg.coord_map), sorted(cw.coord_map))
    for n in cw.coord_map:
        expect(tuple(cg.dim_map[n]) == tuple(cw.dim_map[n]), f"{what}dims of {n}", cg.dim_map[n], cw.dim_map[n])
        same_coord(cg.coord_map[n], cw.coord_map[n], f"{what}coordinate {n}")
    if attrs:
        same_attrs(got.attrs, want.attrs, what, skip_attrs)


def is_same(a, b, **kw):
    from mc.core import Mismatch

    try:
        same_patch(a, b, **kw)
    except Mismatch:
        return False
    return True


# ---------------------------------------------------------------- patch alphabet
def time_coord(kind, n=4):
    import dascore as dc

    i = np.arange(n)
    t = T0 + i * SEC
    if kind == "even":
        return t
    if kind == "sub":
        return T0 + i * MS
    if kind == "uneven":
        t = t.copy()
        t[1] += 3 * MS
        return t
    if kind == "rev":
        return t[::-1].copy()
    if kind == "unsorted":
        return t[np.argsort((i * 3 + 1) % max(n, 1), kind="stable")].copy()
    if kind == "nat":
        t = t.copy()
        t[-1] = np.datetime64("NaT")
        return t
    if kind == "single":
        return t[:1]
    if kind == "float":
        return i * 0.25 + 1
    if kind == "floatrev":
        return (i * 0.1 + 0.3)[::-1].copy()
    if kind == "floatuneven":
        return np.array([0.0, 0.5, 4.0, 4.25, 9, 10, 11, 12])[:n]
    if kind == "int":
        return i * 3 - 2
    if kind == "td":
        return i * 250 * MS - SEC
    if kind == "partial":
        return dc.get_coord(shape=(n,))
    if kind == "empty":
        return t[:0]
    if kind == "old":
        return np.datetime64("1931-05-06T07:08:09.000000001", "ns") + i * SEC
    raise KeyError(kind)


TIME_KINDS = ("even", "sub", "uneven", "rev", "unsorted", "nat", "single", "float", "floatrev", "floatuneven", "int", "td", "partial", "empty", "old")
DTYPES = ("f8", "f4", "i2", "u1", "c16", "?", ">f8", "f8nan")
EXTRAS = ("none", "assoc", "dt", "two", "free", "scalar", "many", "partial")
ATTRS = ("none", "some", "custom", "all")


def data_for(shape, dtype):
    n = int(np.prod(shape))
    x = (np.arange(n) * 7 % 11).reshape(shape)
    if dtype == "c16":
        return (x + 1j * (x % 3)).astype("c16")
    if dtype == "?":
        return (x % 2).astype(bool)
    if dtype == "f8nan":
        y = x.astype("f8")
        if n:
            y.reshape(-1)[::3] = np.nan
        return y
    return x.astype(dtype)


def extras(kind, nd, nt):
    import dascore as dc

    d = dict(
        none={},
        assoc=dict(qual=("time", (np.arange(nt) * 3 % 5) * 1.0), zone=("distance", np.arange(nd) + 5)),
        dt=dict(when=("distance", T0 + np.arange(nd) * SEC), lag=("time", np.arange(nt) * MS)),
        two=dict(grid=(("distance", "time"), np.arange(nd * nt).reshape(nd, nt) * 1.0), tgrid=(("time", "distance"), np.arange(nd * nt).reshape(nt, nd))),
        free=dict(free=(None, np.array([1.0, 2.0, 4.0])), freet=(None, T0 + np.arange(2) * SEC)),
        scalar=dict(one=(None, np.array([5]))),
        many=dict(distance_2=("distance", np.arange(nd) * 2.0 + 1), _priv=("time", np.arange(nt) * 1.0)),
        partial=dict(blank=("distance", dc.get_coord(shape=(nd,)))),
    )
    return d[kind]


def attrs_for(kind):
    return dict(
        none={},
        some=dict(tag="t1", station="S", network="N", data_units="m/s", history=["one(a=1)", "two()"]),
        custom=dict(gauge_length=10.0, note="free text: ünïcode / slash", flag=True, number=7, other=None),
        all=dict(tag="x", station="S2", network="N2", data_type="velocity", data_category="DAS", data_units="10 m/s", instrument_id="i1", acquisition_id="a1", history=["a"], project="p"),
    )[kind]


def make(time="even", dtype="f8", extra="none", attrs="none", order=("distance", "time"), units=True, nt=4, nd=3, dist=None):
    import dascore as dc

    tc = time_coord(time, nt)
    nt = len(tc)
    coords = dict(distance=np.arange(nd) * 10.0 if dist is None else dist, time=tc)
    nd = len(coords["distance"])
    coords.update(extras(extra, nd, nt))
    data = data_for((nd, nt), dtype)
    p = dc.Patch(data=data, coords=coords, dims=("distance", "time"), attrs=attrs_for(attrs))
    if units:
        p = p.update(coords=p.coords.set_units(distance="m", time="s"))
    if tuple(order) != ("distance", "time"):
        p = p.transpose(*order)
    return p


def one_d(dim="time", time="even", **kw):
    import dascore as dc

    c = time_coord(time)
    return dc.Patch(data=np.arange(len(c)) * 1.5, coords={dim: c}, dims=(dim,), **kw)


def three_d():
    import dascore as dc

    return dc.Patch(data=np.arange(24.0).reshape(2, 3, 4), coords=dict(time=time_coord("even"), distance=np.arange(3.0), rank=np.arange(2)), dims=("rank", "distance", "time"))
