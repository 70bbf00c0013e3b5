"""
The reference model: a patch is a numpy array plus labelled axes, nothing else.

No dascore code is used here.  `coords` maps name -> (dims, values); `values`
is None for a dimension without labels (only its length is known).
"""
from __future__ import annotations

import itertools

import numpy as np

from mc.core import Skip, digest, expect
from mc.gen import same

T0 = np.datetime64("2020-01-02T03:04:05.000000000", "ns")


def sec(x):
    return np.timedelta64(int(round(x * 1e9)), "ns")


class Ref:
    """The model state."""

    def __init__(self, dims, data, coords):
        self.dims, self.data, self.coords = tuple(dims), data, dict(coords)

    def key(self):
        parts = [repr(self.dims), str(self.data.dtype), self.data.tobytes(), repr(self.data.shape)]
        for n in sorted(self.coords):
            d, v = self.coords[n]
            parts += [n, repr(d), "none" if v is None else (str(v.dtype) + str(v.shape)), b"" if v is None else v.tobytes()]
        return digest(b"|".join(x if isinstance(x, bytes) else x.encode() for x in parts))

    # --- helpers
    def axis(self, dim):
        return self.dims.index(dim)

    def on(self, dim):
        return [n for n, (d, _) in self.coords.items() if dim in d]

    def copy(self, **kw):
        return Ref(kw.get("dims", self.dims), kw.get("data", self.data), kw.get("coords", self.coords))

    def take(self, dim, idx):
        """Index every array spanning dim with idx (1-D int/bool index)."""
        data = self.data[(slice(None),) * self.axis(dim) + (idx,)]
        coords = {}
        for n, (d, v) in self.coords.items():
            if dim in d and v is not None:
                v = v[(slice(None),) * d.index(dim) + (idx,)]
            coords[n] = (d, v)
        return Ref(self.dims, data, coords)

    # --- the operations
    def transpose(self, dims):
        return self.copy(dims=dims, data=np.transpose(self.data, [self.axis(d) for d in dims]))

    def flip(self, *dims, flip_coords=True):
        out = self
        for d in dims:
            sl = np.arange(self.data.shape[self.axis(d)])[::-1]
            if flip_coords:
                out = out.take(d, sl)
            else:
                out = out.copy(data=np.flip(out.data, out.axis(d)))
        return out

    def sort(self, *names, reverse=False):
        out = self
        for n in names:
            d, v = out.coords[n]
            ind = np.argsort(v, kind="stable")
            if reverse:
                ind = ind[::-1]
            out = out.take(d[0], ind)
        return out

    def drop(self, *names):
        return self.copy(coords={n: v for n, v in self.coords.items() if n not in names})

    def drop_dim(self, dim):
        """Remove a length one dimension and whatever is attached to it."""
        data = np.squeeze(self.data, axis=self.axis(dim))
        coords = {n: v for n, v in self.coords.items() if dim not in v[0]}
        return Ref([d for d in self.dims if d != dim], data, coords)

    def append(self, name, value):
        n = value if isinstance(value, int) else len(value)
        data = np.broadcast_to(self.data[..., None], (*self.data.shape, n))
        coords = dict(self.coords)
        coords[name] = ((name,), None if isinstance(value, int) else np.asarray(value))
        return Ref((*self.dims, name), data, coords)

    def rename(self, **kw):
        f = lambda x: kw.get(x, x)  # noqa: E731
        return Ref([f(d) for d in self.dims], self.data,
                   {f(n): (tuple(f(x) for x in d), v) for n, (d, v) in self.coords.items()})

    def set_dim(self, old, new):
        """`new` (1-D over old) becomes the name of that dimension."""
        f = lambda x: new if x == old else x  # noqa: E731
        return Ref([f(d) for d in self.dims], self.data,
                   {n: (tuple(f(x) for x in d), v) for n, (d, v) in self.coords.items()})

    def put(self, name, dims, values):
        coords = dict(self.coords)
        coords[name] = (tuple(dims), values)
        return self.copy(coords=coords)

    def roll(self, dim, k, update_coord):
        out = self.copy(data=np.roll(self.data, k, self.axis(dim)))
        if update_coord:
            d, v = self.coords[dim]
            out = out.put(dim, d, np.roll(v, k))
        return out


def compare(patch, ref, what=""):
    """The patch must be exactly the model state."""
    expect(tuple(patch.dims) == ref.dims, f"{what}dims", patch.dims, ref.dims)
    data = np.asarray(patch.data)
    expect(data.shape == ref.data.shape, f"{what}data shape", data.shape, ref.data.shape)
    expect(data.dtype == ref.data.dtype, f"{what}data dtype", data.dtype, ref.data.dtype)
    expect(same(data, ref.data), f"{what}data moved or changed", data.tolist(), ref.data.tolist())
    cm = patch.coords
    names = set(cm.coord_map)
    expect(names == set(ref.coords), f"{what}coordinate names", sorted(names), sorted(ref.coords))
    for n, (d, v) in ref.coords.items():
        expect(tuple(cm.dim_map[n]) == tuple(d), f"{what}dims of coord {n}", cm.dim_map[n], d)
        c = patch.get_coord(n)
        if v is None:
            expect(len(c) == ref.data.shape[ref.axis(n)], f"{what}length of coord {n}")
            continue
        got = np.asarray(patch.get_array(n))
        if v.size == 0:
            expect(got.shape == v.shape, f"{what}shape of empty coord {n}", got.shape, v.shape)
            continue
        expect(same(got, v, 1e-12 if v.dtype.kind == "f" else 0), f"{what}labels of {n}", got, v)
    return patch


# --------------------------------------------------------------------- initial states
def _ids(*shape, dtype="f8"):
    n = int(np.prod(shape))
    return (np.arange(n).reshape(shape) * 3 + 1).astype(dtype)


def even_t(n, k=1.0):
    return T0 + np.arange(n) * sec(k)


def initials():
    """name -> Ref; every coordinate kind, 1-3 dims."""
    out = {}
    out["even2d"] = Ref(("distance", "time"), _ids(3, 4), {
        "distance": (("distance",), np.array([0.0, 1.0, 2.0])), "time": (("time",), even_t(4))})
    out["rich2d"] = Ref(("distance", "time"), _ids(3, 4), {
        "distance": (("distance",), np.array([1.0, 2.0, 4.5])),
        "time": (("time",), even_t(4, 0.5)[::-1].copy()),
        "qual": (("time",), np.array([0.5, -2.0, 7.0, 3.0])),
        "depth": (("distance",), np.array([30, 10, 20])),
        "lat": (("distance", "time"), _ids(3, 4) * 0.25 - 1),
        "extra": ((), np.array([5.0, 6.0])),
    })
    out["three"] = Ref(("a", "b", "time"), _ids(2, 3, 2, dtype="i8"), {
        "a": (("a",), np.array([10, 20])),
        "b": (("b",), np.array([0.25, 0.125, 0.5])),
        "time": (("time",), even_t(2)),
        "lon": (("b", "a"), _ids(3, 2) / 2),
        "qual": (("b",), np.array([3, 2, 1])),
    })
    out["one"] = Ref(("time",), _ids(4, dtype="f4"), {
        "time": (("time",), T0 + np.array([3, 0, 7, 5]) * sec(1)),
        "qual": (("time",), np.array([1.0, 2.0, 3.0, 4.0])),
    })
    out["single"] = Ref(("time", "distance"), _ids(1, 3), {
        "time": (("time",), even_t(1)),
        "distance": (("distance",), np.array([3.0, 2.0, 1.0])),
        "qual": (("time",), np.array([9.0])),
        "lat": (("distance", "time"), _ids(3, 1) * 1.0),
    })
    out["ints"] = Ref(("lag", "chan"), _ids(4, 3, dtype="c16") * (1 + 1j), {
        "lag": (("lag",), np.arange(-1, 3) * sec(0.1)),
        "chan": (("chan",), np.array([7, 3, 5])),
    })
    out["dups"] = Ref(("distance", "time"), _ids(4, 2), {
        "distance": (("distance",), np.array([1.0, 2.0, 2.0, 5.0])),
        "time": (("time",), T0 + np.array([0, 3]) * sec(1)),
        "group": (("distance",), np.array([1, 0, 1, 0])),
    })
    out["nocoord"] = Ref(("time", "thing"), _ids(3, 2), {
        "time": (("time",), even_t(3, 0.001)), "thing": (("thing",), None)})
    out["empty"] = Ref(("distance", "time"), _ids(0, 3), {
        "distance": (("distance",), np.array([], dtype="f8")), "time": (("time",), even_t(3)),
        "qual": (("time",), np.array([2.0, 1.0, 3.0]))})
    return out


def to_patch(ref, attrs=None):
    """Real patch holding the model state."""
    import dascore as dc

    coords = {}
    for n, (d, v) in ref.coords.items():
        if v is None:
            continue
        coords[n] = (d, v.copy()) if d else (None, v.copy())
    return dc.Patch(data=ref.data.copy(), coords=coords, dims=ref.dims, attrs=dict(attrs or {}))


# --------------------------------------------------------------------- operation alphabet
def uniq(v):
    return v is not None and v.ndim == 1 and len(np.unique(v)) == len(v)


def tag(v):
    """Readable label for case specs."""
    return np.asarray(v).astype(str).tolist()


def even_or_skip(patch, dim):
    """roll documents that it needs an evenly sampled coordinate."""
    if not patch.get_coord(dim).evenly_sampled:
        raise Skip()
    return patch


def ops(R, rich=True):
    """
    All operations applicable in model state R:
    yields (name, args-as-data, real(patch), model() -> Ref).
    """
    dims = R.dims
    nd = len(dims)
    # transposition
    for perm in itertools.permutations(dims):
        if nd > 1:
            yield ("transpose", perm, lambda p, perm=perm: p.transpose(*perm), lambda perm=perm: R.transpose(perm))
    if nd > 1:
        yield ("T", (), lambda p: p.T, lambda: R.transpose(dims[::-1]))
        last = dims[-1]
        yield ("transpose...", (last,), lambda p: p.transpose(last, ...), lambda: R.transpose((last, *dims[:-1])))
    # flips
    for d in dims:
        if R.coords[d][1] is None:
            continue
        yield ("flip", (d,), lambda p, d=d: p.flip(d), lambda d=d: R.flip(d))
        if rich:
            yield ("flip-data", (d,), lambda p, d=d: p.flip(d, flip_coords=False),
                   lambda d=d: R.flip(d, flip_coords=False))
    lab = [d for d in dims if R.coords[d][1] is not None]
    if len(lab) > 1:
        yield ("flip", lab[:2], lambda p: p.flip(*lab[:2]), lambda: R.flip(*lab[:2]))
        if len(lab) > 2:
            yield ("flip", lab, lambda p: p.flip(*lab), lambda: R.flip(*lab))
    # sorting
    for n, (d, v) in R.coords.items():
        if len(d) == 1 and uniq(v) and v.dtype.kind not in "US":
            for rev in (False, True):
                yield ("sort_coords", (n, rev), lambda p, n=n, rev=rev: p.sort_coords(n, reverse=rev),
                       lambda n=n, rev=rev: R.sort(n, reverse=rev))
    if len(lab) == nd > 1 and all(uniq(R.coords[d][1]) for d in dims):
        yield ("sort_coords", "all", lambda p: p.sort_coords(*dims), lambda: R.sort(*dims))
    # selection
    for n, (d, v) in R.coords.items():
        if len(d) != 1:
            continue
        m = R.data.shape[R.axis(d[0])]
        if m == 0:
            continue
        if v is not None and v.dtype.kind not in "US":
            s = np.unique(v)
            lo, hi = s[min(1, len(s) - 1)], s[-1]
            rngs = [(lo, hi), (lo, None), (None, lo), (s[0], s[max(0, len(s) - 2)])]
            for a, b in rngs if rich else rngs[:1]:
                keep = np.ones(m, bool)
                if a is not None:
                    keep &= v >= a
                if b is not None:
                    keep &= v <= b
                yield ("select", (n, tag([x for x in (a, b) if x is not None])),
                       lambda p, n=n, a=a, b=b: p.select(**{n: (a, b)}),
                       lambda d=d, keep=keep: R.take(d[0], np.flatnonzero(keep)))
            pick = s[[-1, 0]] if len(s) > 1 else s
            keep = np.isin(v, pick)
            yield ("select-array", (n, tag(pick)), lambda p, n=n, pick=pick: p.select(**{n: pick.copy()}),
                   lambda d=d, keep=keep: R.take(d[0], np.flatnonzero(keep)))
            if uniq(v):
                idx = [int(np.flatnonzero(v == x)[0]) for x in pick]
                yield ("order", (n, tag(pick)), lambda p, n=n, pick=pick: p.order(**{n: pick.copy()}),
                       lambda d=d, idx=idx: R.take(d[0], np.array(idx)))
        keep = np.arange(m) % 2 == 0
        if v is None:
            yield ("select-mask-samples", (n,), lambda p, n=n: p.select(**{n: (0, 1)}, samples=True),
                   lambda d=d: R.take(d[0], np.array([0])))
        else:
            yield ("select-mask", (n,), lambda p, n=n, keep=keep: p.select(**{n: keep.copy()}),
                   lambda d=d, keep=keep: R.take(d[0], np.flatnonzero(keep)))
        for a, b in [(1, None), (None, -1), (-1, None), (0, 1)] if rich else [(1, None)]:
            ind = np.arange(m)[slice(a, b)]
            if len(ind) == 0:
                continue
            yield ("select-samples", (n, a, b), lambda p, n=n, a=a, b=b: p.select(**{n: (a, b)}, samples=True),
                   lambda d=d, ind=ind: R.take(d[0], ind))
        if m > 1 and v is not None:
            ind = np.array([m - 1, 0])
            yield ("order-samples", (n,), lambda p, n=n, ind=ind: p.order(**{n: ind.copy()}, samples=True),
                   lambda d=d, ind=ind: R.take(d[0], ind))
    # simultaneous selections
    one = [(n, d[0], v) for n, (d, v) in R.coords.items()
           if len(d) == 1 and v is not None and v.dtype.kind not in "US" and len(v) > 1]
    for (n1, d1, v1), (n2, d2, v2) in itertools.combinations(one, 2):
        if not rich and d1 != d2:
            continue
        s1, s2 = np.unique(v1), np.unique(v2)
        a1, b2 = s1[min(1, len(s1) - 1)], s2[max(0, len(s2) - 2)]

        def both(d1=d1, v1=v1, a1=a1, d2=d2, v2=v2, b2=b2):
            if d1 == d2:
                return R.take(d1, np.flatnonzero((v1 >= a1) & (v2 <= b2)))
            return R.take(d1, np.flatnonzero(v1 >= a1)).take(d2, np.flatnonzero(v2 <= b2))
        yield ("select-two", (n1, n2), lambda p, n1=n1, n2=n2, a1=a1, b2=b2: p.select(**{n1: (a1, None), n2: (None, b2)}),
               both)
    # dropping / adding dims
    ones = [d for d in dims if R.data.shape[R.axis(d)] == 1]
    if ones and nd > len(ones) and R.data.size:
        def sq():
            out = R
            for d in ones:
                out = out.drop_dim(d)
            return out
        yield ("squeeze", (), lambda p: p.squeeze(), sq)
    for d in ones:
        if nd > 1:
            yield ("squeeze", (d,), lambda p, d=d: p.squeeze(d), lambda d=d: R.drop_dim(d))
    if nd < 3 and R.data.size:
        for val in (1, 2, np.array([4.0, 2.5])) if rich else (np.array([4.0, 2.5]),):
            nm = "newd"
            if nm not in R.coords:
                yield ("append_dims", tag(val), lambda p, val=val: p.append_dims(newd=val),
                       lambda val=val: R.append("newd", val))
    # names
    ren = {"time": "t2", "t2": "time", "distance": "d2", "d2": "distance", "qual": "q2", "q2": "qual", "b": "bb"}
    for n in R.coords:
        if n in ren and ren[n] not in R.coords:
            yield ("rename_coords", (n, ren[n]), lambda p, n=n: p.rename_coords(**{n: ren[n]}),
                   lambda n=n: R.rename(**{n: ren[n]}))
    if nd > 1 and rich:
        x, y = dims[0], dims[1]
        yield ("rename_coords2", (x, y), lambda p: p.rename_coords(**{x: x + "n", y: y + "n"}),
               lambda: R.rename(**{x: x + "n", y: y + "n"}))
    for n, (d, v) in R.coords.items():
        if len(d) == 1 and n not in dims and v is not None and not n.startswith("_"):
            yield ("set_dims", (d[0], n), lambda p, d=d, n=n: p.set_dims(**{d[0]: n}),
                   lambda d=d, n=n: R.set_dim(d[0], n))
    # coords
    for n, (d, v) in R.coords.items():
        if n not in dims:
            yield ("drop_coords", (n,), lambda p, n=n: p.drop_coords(n), lambda n=n: R.drop(n))
            if rich:
                yield ("update_coords-None", (n,), lambda p, n=n: p.update_coords(**{n: None}), lambda n=n: R.drop(n))
    for d in lab:
        m = R.data.shape[R.axis(d)]
        if m == 0:
            continue
        v = R.coords[d][1]
        nv = np.array([2.0, 0.5, 9.0, 4.0, 11.0, 3.0][:m])
        if len(nv) == m and "added" not in dims:
            yield ("update_coords-add", (d,), lambda p, d=d, nv=nv: p.update_coords(**{"added": (d, nv.copy())}),
                   lambda d=d, nv=nv: R.put("added", (d,), nv))
            yield ("update_coords-dim", (d,), lambda p, d=d, nv=nv: p.update_coords(**{d: nv.copy()}),
                   lambda d=d, nv=nv: R.put(d, (d,), nv))
        if v.dtype.kind in "fM" and m > 1 and "_" not in d:
            up = bool(np.all(v[1:] > v[:-1]))
            diff = np.unique(v[1:] - v[:-1])
            shift = sec(7) if v.dtype.kind == "M" else 7.0
            if up:
                for what, base in (("min", v[0]), ("max", v[-1])):
                    yield (f"update_coords-{what}", (d,),
                           lambda p, d=d, base=base, shift=shift, what=what: p.update_coords(**{f"{d}_{what}": base + shift}),
                           lambda d=d, v=v, shift=shift: R.put(d, (d,), v + shift))
                if len(diff) == 1:
                    step = diff[0] * 2
                    yield ("update_coords-step", (d,), lambda p, d=d, step=step: p.update_coords(**{f"{d}_step": step}),
                           lambda d=d, v=v, step=step, m=m: R.put(d, (d,), v[0] + np.arange(m) * step))
    if len(lab) > 1 and rich:
        x, y = lab[-1], lab[0]
        arr = np.arange(R.data.shape[R.axis(x)] * R.data.shape[R.axis(y)], dtype="f8").reshape(
            R.data.shape[R.axis(x)], R.data.shape[R.axis(y)])
        if arr.size:
            yield ("update_coords-2d", (x, y), lambda p: p.update_coords(two=((x, y), arr.copy())),
                   lambda: R.put("two", (x, y), arr))
        yield ("update_coords-free", (), lambda p: p.update_coords(free=(None, np.array([1.0, 3.0, 2.0]))),
               lambda: R.put("free", (), np.array([1.0, 3.0, 2.0])))
    # rolls
    for d in lab:
        m = R.data.shape[R.axis(d)]
        v = R.coords[d][1]
        if m > 1 and len(np.unique(v[1:] - v[:-1])) == 1 and v[1] != v[0]:
            for k, upd in ((1, False), (1, True), (-1, True)) if rich else ((1, True),):
                yield ("roll", (d, k, upd), lambda p, d=d, k=k, upd=upd: even_or_skip(p, d).roll(**{d: k}, samples=True, update_coord=upd),
                       lambda d=d, k=k, upd=upd: R.roll(d, k, upd))
    if "_hidden" in R.coords:
        yield ("drop_private_coords", (), lambda p: p.drop_private_coords(), lambda: R.drop("_hidden"))
    elif lab and rich and R.data.shape[R.axis(lab[0])]:
        d = lab[0]
        m = R.data.shape[R.axis(d)]
        yield ("update_coords-private", (d,), lambda p, d=d, m=m: p.update_coords(_hidden=(d, np.arange(m) * 1.5)),
               lambda d=d, m=m: R.put("_hidden", (d,), np.arange(m) * 1.5))
