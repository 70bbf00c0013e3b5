"""State predicates and snapshots of real patches (independent recomputation)."""
from __future__ import annotations

import numpy as np
import pandas as pd

from mc.core import digest, expect
from mc.gen import same

KEEP = ("tag", "station", "network", "instrument_id", "acquisition_id", "data_category", "custom", "gauge_length")


def isnull(x):
    try:
        return bool(pd.isnull(x))
    except (TypeError, ValueError):
        return False


def eq_val(a, b):
    if a is None or b is None:
        return (a is None or isnull(a)) and (b is None or isnull(b))
    if isnull(a) and isnull(b):
        return True
    return same(np.asarray(a), np.asarray(b), 1e-9 if np.asarray(b).dtype.kind == "f" else 0)


def consistent(patch, what=""):
    """Everything a patch says about itself must follow from its data array and coordinate values."""
    data = np.asarray(patch.data)
    dims = tuple(patch.dims)
    cm, attrs = patch.coords, patch.attrs
    expect(len(set(dims)) == len(dims), f"{what}duplicate dims", dims)
    expect(tuple(cm.dims) == dims, f"{what}coords.dims", cm.dims, dims)
    expect(attrs.dims == ",".join(dims), f"{what}attrs.dims", attrs.dims, dims)
    expect(tuple(attrs.dim_tuple) == dims, f"{what}attrs.dim_tuple", attrs.dim_tuple, dims)
    expect(tuple(patch.shape) == data.shape, f"{what}shape", patch.shape, data.shape)
    if dims:
        expect(tuple(cm.shape) == data.shape, f"{what}coords.shape", cm.shape, data.shape)
        expect(patch.ndim == len(dims) == data.ndim, f"{what}ndim", patch.ndim, dims, data.shape)
    expect(patch.size == data.size, f"{what}size", patch.size, data.size)
    expect(patch.dtype == data.dtype, f"{what}dtype")
    names = set(cm.coord_map)
    expect(set(dims) <= names, f"{what}dims without coords", dims, names)
    expect(set(cm.dim_map) == names, f"{what}dim_map names", set(cm.dim_map), names)
    expect(set(attrs.coords) == names, f"{what}attrs.coords names", sorted(attrs.coords), sorted(names))
    shapes = patch.coord_shapes
    for ax, d in enumerate(dims):
        expect(tuple(cm.dim_map[d]) == (d,), f"{what}dim_map of {d}", cm.dim_map[d])
        expect(patch.get_axis(d) == ax, f"{what}get_axis({d})")
    for n in names:
        coord = patch.get_coord(n)
        vals = np.asarray(coord.values)
        cd = cm.dim_map[n]
        if cd:
            want = tuple(data.shape[dims.index(d)] for d in cd)
            expect(vals.shape == want, f"{what}coord {n} spans {cd} but has shape", vals.shape, want)
        expect(tuple(shapes[n]) == vals.shape, f"{what}coord_shapes[{n}]", shapes[n], vals.shape)
        summ = attrs.coords[n]
        partial = type(coord).__name__ == "CoordPartial" or vals.size == 0
        if partial:
            continue
        if vals.dtype.kind in "fmM" and np.isnat(vals).any() if vals.dtype.kind in "mM" else (
                vals.dtype.kind == "f" and np.isnan(vals).any()):
            continue
        mn, mx = vals.min(), vals.max()
        expect(eq_val(summ.min, mn), f"{what}attrs.coords[{n}].min", summ.min, mn)
        expect(eq_val(summ.max, mx), f"{what}attrs.coords[{n}].max", summ.max, mx)
        expect(eq_val(summ.step, coord.step), f"{what}attrs.coords[{n}].step", summ.step, coord.step)
        if vals.ndim == 1 and len(vals) > 1 and summ.step is not None and not isnull(summ.step):
            expect(eq_val(summ.step, (vals[1] - vals[0])), f"{what}step vs labels of {n}", summ.step, vals[1] - vals[0])
        expect(summ.units == coord.units, f"{what}attrs.coords[{n}].units", summ.units, coord.units)
        kind = np.dtype(summ.dtype).kind
        expect(kind == vals.dtype.kind, f"{what}attrs.coords[{n}].dtype", summ.dtype, vals.dtype)
        if "_" not in n:
            expect(eq_val(getattr(attrs, f"{n}_min"), mn), f"{what}attrs.{n}_min")
            expect(eq_val(getattr(attrs, f"{n}_max"), mx), f"{what}attrs.{n}_max")
            expect(eq_val(getattr(attrs, f"{n}_step"), coord.step), f"{what}attrs.{n}_step")
    return patch


def meta(patch):
    """Metadata which no structural or numeric operation concerns."""
    return {k: patch.attrs.get(k) for k in KEEP}


def _b(x):
    x = np.asarray(x)
    if x.dtype == object:
        return repr(x.tolist()).encode()
    return str((x.dtype, x.shape)).encode() + np.ascontiguousarray(x).tobytes()


def snap_patch(p):
    """Full observable value of a patch."""
    parts = [repr(p.dims).encode(), _b(p.data)]
    cm = p.coords
    for n in sorted(cm.coord_map):
        c = cm.coord_map[n]
        parts += [n.encode(), repr(cm.dim_map[n]).encode(), type(c).__name__.encode(), _b(c.values),
                  str((c.units, c.step, c.shape, c.dtype)).encode()]
    parts.append(repr(sorted((k, repr(v)) for k, v in p.attrs.model_dump().items())).encode())
    return digest(b"|".join(parts))


def snap(obj):
    """Observable value of any argument object."""
    if hasattr(obj, "coords") and hasattr(obj, "attrs") and hasattr(obj, "data"):
        return snap_patch(obj)
    if isinstance(obj, np.ndarray):
        return digest(_b(obj))
    if isinstance(obj, pd.DataFrame | pd.Series):
        return digest(obj.to_csv() + repr(obj.dtypes))
    if hasattr(obj, "get_contents"):
        return digest(repr([snap_patch(x) for x in obj]) + obj.get_contents().to_csv())
    if isinstance(obj, list | tuple):
        return digest(repr([snap(x) for x in obj]))
    if isinstance(obj, dict):
        return digest(repr({k: snap(v) for k, v in obj.items()}))
    return digest(repr(obj))


def ref_of(patch):
    """Model state of a real patch."""
    from mc.ref import Ref

    coords = {}
    for n, c in patch.coords.coord_map.items():
        coords[n] = (tuple(patch.coords.dim_map[n]),
                     None if type(c).__name__ == "CoordPartial" else np.asarray(c.values))
    return Ref(patch.dims, np.asarray(patch.data), coords)
