"""C18: concatenate, stack and attribute/coordinate merging follow the declared policy."""
from __future__ import annotations

import copy
import itertools
import warnings

import numpy as np

from mc.core import Mismatch, Skip, expect
from mc.ref import T0

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of patch collections x conflicts x policies on the real code, against a per-field / per-label reference"
ASSUMPTIONS = ["stack and concatenate look at dimensions and coordinates only; attributes of the result are those of the first patch (documented)", "values are small integers so sums are exact"]
BOUNDS = {
    "quick": "concatenate: all lists of <=3 of 11 variants x 3 dims x 5 group sizes x 3 behaviours; stack: all lists of <=3 of 13 variants x dim_vary x 3 behaviours; combine_patch_attrs: all lists of <=3 of 12 models x 3 policies x 5 drop lists x with/without merge coord x model/dict inputs; merge_coord_managers: all lists of <=3 of 10 managers x policy; chunk(conflict) end to end",
    "thorough": "lists of <=4",
}
SEC = np.timedelta64(1, "s").astype("m8[ns]")


def mk(t0=0, nt=2, dist=(0.0, 10.0), units="m", val=0, dims=("distance", "time"), time_reverse=False, extra=None, attrs=None, dtype=float, square=False):
    import dascore as dc

    t = T0 + (t0 + np.arange(nt)) * SEC
    if time_reverse:
        t = t[::-1]
    data = (np.arange(len(dist) * nt).reshape(len(dist), nt) + 1 + val).astype(dtype)
    coords = dict(distance=dc.get_coord(data=np.array(dist), units=units), time=t)
    if extra is not None:
        coords.update(extra)
    p = dc.Patch(data=data, coords=coords, dims=("distance", "time"), attrs=dict(tag="x", **(attrs or {})))
    if tuple(dims) != ("distance", "time"):
        p = p.transpose(*dims)
    return p


def variants():
    return [
        ("base", mk()),
        ("next", mk(t0=2, val=10)),
        ("gap3", mk(t0=9, nt=3, val=20)),
        ("overlap", mk(t0=1, val=30)),
        ("rev", mk(t0=4, val=40, time_reverse=True)),
        ("otherdist", mk(t0=2, dist=(0.0, 20.0), val=50)),
        ("longdist", mk(dist=(20.0, 30.0, 40.0), val=60)),
        ("cm", mk(dist=(0.0, 1000.0), units="cm", val=70)),
        ("nounits", mk(dist=(0.0, 10.0), units=None, val=80)),
        ("assoc", mk(val=90, extra=dict(zone=("distance", np.array([1, 2]))))),
        ("assoc2", mk(t0=2, val=95, extra=dict(zone=("distance", np.array([1, 3]))))),
    ]


# ---------------------------------------------------------------- references
def labels(p, dim):
    return np.asarray(p.get_array(dim))


def coord_eq(c1, c2):
    a, b = np.asarray(c1.values), np.asarray(c2.values)
    if c1.units != c2.units:
        return False
    return a.shape == b.shape and bool(np.all(a == b))


def compatible(p1, p2, dim=None, same_len=False):
    if p1.dims != p2.dims:
        return False
    for name in set(p1.coords.coord_map) & set(p2.coords.coord_map):
        c1, c2 = p1.get_coord(name), p2.get_coord(name)
        if name == dim and not (same_len and c1.shape != c2.shape):
            continue
        if not coord_eq(c1, c2):
            return False
    return True


def shards(tier):
    K = 3 if tier == "quick" else 4
    nv = 11
    out = [dict(job="concat", first=i, n=K) for i in range(nv)]
    out += [dict(job="stack", first=i, n=K) for i in range(13)]
    out += [dict(job="attrs", first=i, n=K) for i in range(12)]
    out += [dict(job="coords", first=i, n=K) for i in range(10)]
    out += [dict(job="chunk")]
    return out


def run(shard, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dict(concat=run_concat, stack=run_stack, attrs=run_attrs, coords=run_coords, chunk=run_chunk)[shard["job"]](shard, ctx)


def lists(vs, first, k):
    for n in range(1, k + 1):
        for rest in itertools.product(vs, repeat=n - 1):
            yield [vs[first], *rest]


def with_policy(fn, behavior, incompatible, ctx):
    """Run fn under a check_behavior; None when it raised as it should."""
    from dascore.exceptions import IncompatiblePatchError

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            out = fn()
        except IncompatiblePatchError:
            expect(behavior == "raise" and incompatible, "IncompatiblePatchError", behavior, incompatible)
            ctx.outcome("raised")
            return None
    expect(not (behavior == "raise" and incompatible), "incompatible patches did not raise", incompatible)
    warned = any("compatible" in str(w.message) for w in rec)
    if behavior == "warn":
        expect(warned == bool(incompatible), "warning", warned, incompatible)
    else:
        expect(not warned, "warning with behavior", behavior)
    return out


def run_concat(shard, ctx):
    import dascore as dc
    from dascore.utils.patch import concatenate_patches

    vs = variants()
    for sub in lists(vs, shard["first"], shard["n"]):
        names = [n for n, _ in sub]
        patches = [p for _, p in sub]
        for dim, behavior in itertools.product(("time", "distance", "rank"), (None, "warn", "raise")):
            good = [p for p in patches if compatible(patches[0], p, dim)]
            bad = [n for n, p in sub if not compatible(patches[0], p, dim)]
            for size in (None, 1, 2, 3, 5) if behavior is None else (None, 2):
                with ctx.case(dict(job="concat", patches=names, dim=dim, behavior=behavior, size=size)):
                    ctx.trans()
                    ctx.state(("concat", tuple(names), dim, size))
                    out = with_policy(lambda: concatenate_patches(patches, check_behavior=behavior, **{dim: size}), behavior, bad, ctx)
                    if out is None:
                        continue
                    n = size or len(good)
                    groups = [good[i:i + n] for i in range(0, len(good), n)]
                    expect(len(out) == len(groups), "number of patches", len(out), len(groups))
                    for o, g in zip(out, groups):
                        check_concat(o, g, dim)
                    if len(sub) < 3:
                        sp = dc.spool(patches).concatenate(check_behavior=None, **{dim: size})
                        expect(len(sp) == len(groups) and all(a.equals(b) for a, b in zip(sp, out)), "spool.concatenate differs")
                    ctx.trace()
                    ctx.outcome("concat")


def in_units(p, dim, units):
    from dascore.units import convert_units

    c = p.get_coord(dim)
    v = np.asarray(c.values)
    if units is None or c.units is None or np.issubdtype(v.dtype, np.datetime64):
        return v
    return convert_units(v, units, c.units)


def check_concat(o, group, dim):
    new = dim not in group[0].dims
    if new:
        want = np.stack([np.asarray(p.data) for p in group], axis=-1)
        expect(o.dims == (*group[0].dims, dim), "dims", o.dims)
        expect(len(o.get_coord(dim)) == len(group), "new dim length")
    else:
        ax = group[0].dims.index(dim)
        want = np.concatenate([np.asarray(p.data) for p in group], axis=ax)
        expect(o.dims == group[0].dims, "dims", o.dims)
        units = next((p.get_coord(dim).units for p in group if p.get_coord(dim).units is not None), None)
        lab = np.concatenate([in_units(p, dim, units) for p in group])
        got = labels(o, dim)
        expect(got.shape == lab.shape and bool(np.all(got == lab) if lab.dtype.kind == "M" else np.allclose(got, lab, rtol=1e-12, atol=0)), "labels of the joined dimension", got, lab)
        expect(o.get_coord(dim).units == units, "units of the joined dimension", o.get_coord(dim).units, units)
    got = np.asarray(o.data)
    expect(got.shape == want.shape and bool(np.all(got == want)), "values", got.tolist(), want.tolist())
    first = group[0]
    for name, c in first.coords.coord_map.items():
        if name == dim or dim in first.coords.dim_map[name]:
            continue
        expect(name in o.coords.coord_map and coord_eq(o.get_coord(name), c) and o.coords.dim_map[name] == first.coords.dim_map[name], "other coordinate", name)
    expect(o.attrs.tag == first.attrs.tag and o.attrs.data_units == first.attrs.data_units, "attrs")
    expect(tuple(o.attrs.history)[:len(first.attrs.history)] == tuple(first.attrs.history) and o.attrs.history[-1] == "concatenate", "history", o.attrs.history)


def run_stack(shard, ctx):
    import dascore as dc
    from dascore.exceptions import PatchCoordinateError
    from dascore.utils.patch import stack_patches

    vs = [v for v in variants() if v[0] != "longdist"] + [
        ("T", mk(val=100, dims=("time", "distance"))),
        ("int", mk(val=110, dtype=int)),
        ("complex", mk(val=120).update(data=mk(val=120).data * (1 + 2j))),
    ]
    for sub in lists(vs, shard["first"], shard["n"]):
        names = [n for n, _ in sub]
        patches = [p for _, p in sub]
        for vary, behavior in itertools.product((None, "time", "distance"), (None, "warn", "raise")):
            good = [p for p in patches if compatible(patches[0], p, vary, same_len=True)]
            bad = [n for n, p in sub if not compatible(patches[0], p, vary, same_len=True)]
            with ctx.case(dict(job="stack", patches=names, vary=vary, behavior=behavior)):
                ctx.trans()
                ctx.state(("stack", tuple(names), vary))
                out = with_policy(lambda: stack_patches(patches, dim_vary=vary, check_behavior=behavior), behavior, bad, ctx)
                if out is None:
                    continue
                want = sum((np.asarray(p.data) for p in good[1:]), np.asarray(good[0].data))
                got = np.asarray(out.data)
                expect(got.shape == want.shape and bool(np.all(got == want)), "stack", got.tolist(), want.tolist())
                expect(out.dims == patches[0].dims, "dims", out.dims)
                for name, c in patches[0].coords.coord_map.items():
                    o = out.get_coord(name)
                    if name == vary:
                        a, b = np.asarray(o.values), np.asarray(c.values)
                        expect(a.shape == b.shape and bool(np.all(a - a[0] == b - b[0])), "varying dimension", a, b)
                    else:
                        expect(coord_eq(o, c), "coordinate", name)
                expect(len(out.attrs.history) == len(patches[0].attrs.history) + 1 and out.attrs.tag == patches[0].attrs.tag, "attrs")
                if len(sub) < 3:
                    o2 = dc.spool(patches).stack(dim_vary=vary, check_behavior=None)
                    expect(np.array_equal(o2.data, out.data), "spool.stack differs")
                ctx.trace()
                ctx.outcome("stack")
        with ctx.case(dict(job="stack", patches=names, vary="nope")):
            try:
                stack_patches(patches, dim_vary="nope", check_behavior=None)
            except PatchCoordinateError:
                continue
            raise Mismatch("stack along a missing dimension")


# ---------------------------------------------------------------- attributes
TIME = [dict(min=0.0, max=9.0, step=1.0), dict(min=10.0, max=19.0, step=1.0), dict(min=20.0, max=29.0, step=2.0)]


def models():
    c = lambda i, **kw: dict(dims="distance,time", coords=dict(time=TIME[i], distance=dict(min=0.0, max=4.0, step=1.0)), **kw)
    return [
        c(0), c(0, station="A"), c(1, station="A"), c(1, station="B"), c(1, station="B", tag="t"), c(2, tag="t"),
        c(1, data_units="m"), c(1, data_units="cm", station="A"), c(0, history=["one"]), c(1, history=["one", "two"], station="A"),
        c(0, gauge=4.0, label="z"), c(1, gauge=5.0, label="z", station="A"),
    ]


FIELDS = ("station", "tag", "data_units", "history", "gauge", "label", "network")
DROPS = (None, "station", ("station",), ("history", "tag"), ("gauge", "nothing"))


def run_attrs(shard, ctx):
    import dascore as dc
    from dascore.exceptions import AttributeMergeError
    from dascore.utils.attrs import combine_patch_attrs

    specs = models()
    objs = [dc.PatchAttrs(**s) for s in specs]
    idx = list(range(len(specs)))
    default = dc.PatchAttrs()

    def val(m, f):
        return getattr(m, f, None) if f in m.model_fields_set or f in type(m).model_fields else dict(m).get(f)

    for sub in lists(idx, shard["first"], shard["n"]):
        if len(sub) > 2 and len(set(sub)) < 2:
            continue
        for policy, drop, coord_name, as_dict in itertools.product(("raise", "drop", "keep_first"), DROPS, (None, "time"), (False, True)):
            if as_dict and drop is not None:
                continue
            if len(sub) > 2 and ctx.tier == "quick" and (drop not in (None, ("station",)) or as_dict):
                continue
            with ctx.case(dict(job="attrs", models=sub, policy=policy, drop=drop, coord=coord_name, dicts=as_dict)):
                ctx.trans()
                ctx.state(("attrs", tuple(sub), policy, drop, coord_name))
                ins = [objs[i] for i in sub]
                # a field counts as present when it is not at its default
                present = [{f: val(m, f) for f in FIELDS if val(m, f) != getattr(default, f, None)} for m in ins]
                dropset = {drop} if isinstance(drop, str) else set(drop or ())
                present = [{k: v for k, v in p.items() if k not in dropset} for p in present]
                times = [specs[i]["coords"]["time"] for i in sub]
                time_conflict = coord_name is None and any(t != times[0] for t in times)
                if as_dict:
                    ins = [m.model_dump(exclude_defaults=True) for m in ins]
                    before = copy.deepcopy(ins)
                conflict = any(p != present[0] for p in present) or time_conflict
                try:
                    out = combine_patch_attrs(ins, coord_name=coord_name, conflicts=policy, drop_attrs=drop)
                except AttributeMergeError:
                    expect(policy == "raise" and conflict, "AttributeMergeError", present)
                    ctx.outcome("raised")
                    continue
                expect(not (policy == "raise" and conflict), "conflict did not raise", present)
                for f in FIELDS:
                    vals = [p.get(f) for p in present]
                    if policy == "keep_first":
                        want = next((p[f] for p in present if f in p), getattr(default, f, None))
                    else:
                        want = vals[0] if vals[0] is not None and all(v == vals[0] for v in vals) else getattr(default, f, None)
                    got = val(out, f)
                    same = tuple(got or ()) == tuple(want or ()) if f == "history" else got == want
                    expect(same, f"field {f}", got, want)
                if coord_name:
                    c = out.coords["time"]
                    steps = [t["step"] for t in times]
                    expect(c.min == min(t["min"] for t in times) and c.max == max(t["max"] for t in times), "merged coordinate range", c)
                    if len(set(steps)) == 1:
                        expect(c.step == steps[0], "merged step", c)
                    else:
                        expect(c.step is None or np.isnan(c.step), "step of unequal steps", c)
                if as_dict:
                    expect(ins == before, "the caller's dicts were changed", ins, before)
                ctx.trace()
                ctx.outcome(policy)


# ---------------------------------------------------------------- coordinate managers
def managers():
    vs = [
        ("a", mk()), ("b", mk(t0=2)), ("c", mk(t0=4, nt=3)), ("otherdist", mk(t0=2, dist=(0.0, 20.0))),
        ("cm", mk(t0=2, dist=(0.0, 1000.0), units="cm")),
        ("z1", mk(t0=2, extra=dict(zone=("distance", np.array([1, 2]))))),
        ("z2", mk(t0=0, extra=dict(zone=("distance", np.array([1, 3]))))),
        ("q1", mk(t0=2, extra=dict(qual=("time", np.array([1, 2]))))),
        ("q2", mk(t0=0, extra=dict(qual=("time", np.array([7, 8])), zone=("distance", np.array([1, 2]))))),
        ("g", mk(t0=4, nt=2, extra=dict(grid=(("distance", "time"), np.arange(4).reshape(2, 2)), zone=("distance", np.array([1, 2]))))),
    ]
    return [(n, p.coords) for n, p in vs]


def run_coords(shard, ctx):
    from dascore.exceptions import CoordMergeError
    from dascore.utils.coordmanager import merge_coord_managers

    for sub in lists(managers(), shard["first"], shard["n"]):
        names = [n for n, _ in sub]
        cms = [c for _, c in sub]
        for drop in (False, True):
            with ctx.case(dict(job="coords", managers=names, drop=drop)):
                ctx.trans()
                ctx.state(("coords", tuple(names), drop))
                order = sorted(range(len(cms)), key=lambda i: cms[i].coord_map["time"].min())
                srt = [cms[i] for i in order]
                shared = [n for n in srt[0].coord_map if all(n in c.coord_map and c.dim_map[n] == srt[0].dim_map[n] for c in srt)]
                conflict_dim = not all(coord_eq(srt[0].coord_map["distance"], c.coord_map["distance"]) for c in srt)
                conflict_other = [n for n in shared if "time" not in srt[0].dim_map[n] and n != "distance" and not all(coord_eq(srt[0].coord_map[n], c.coord_map[n]) for c in srt)]
                want_raise = conflict_dim or (conflict_other and not drop)
                try:
                    out = merge_coord_managers(cms, "time", drop_conflicting=drop)
                except CoordMergeError:
                    expect(want_raise, "CoordMergeError without a conflict")
                    ctx.outcome("raised")
                    continue
                expect(not want_raise, "conflicting coordinates merged", conflict_dim, conflict_other)
                want = set(shared) - set(conflict_other)
                expect(set(out.coord_map) == want, "coordinates", set(out.coord_map), want)
                for n in want:
                    dims = srt[0].dim_map[n]
                    expect(out.dim_map[n] == dims, "dims of", n)
                    arr = [np.asarray(c.coord_map[n].values) for c in srt]
                    w = np.concatenate(arr, axis=dims.index("time")) if "time" in dims else arr[0]
                    g = np.asarray(out.coord_map[n].values)
                    expect(g.shape == w.shape and bool(np.all(g == w)), f"coordinate {n}", g, w)
                    expect(out.coord_map[n].units == srt[0].coord_map[n].units, "units", n)
                ctx.trace()
                ctx.outcome("merged")


# ---------------------------------------------------------------- the policy end to end
def run_chunk(shard, ctx):
    import dascore as dc
    from dascore.exceptions import AttributeMergeError, CoordMergeError

    attrs = [dict(), dict(gauge=4.0), dict(gauge=5.0), dict(gauge=4.0, label="z"), dict(data_units="m"), dict(data_units="cm")]
    extras = [None, dict(zone=("distance", np.array([1, 2]))), dict(zone=("distance", np.array([1, 3])))]
    for (a1, a2), (e1, e2), policy in itertools.product(itertools.product(range(len(attrs)), repeat=2), itertools.product(range(3), repeat=2), ("raise", "drop", "keep_first")):
        with ctx.case(dict(job="chunk", attrs=(a1, a2), extras=(e1, e2), policy=policy)):
            ctx.trans()
            ctx.state(("chunk", a1, a2, e1, e2, policy))
            ps = [mk(attrs=attrs[a1], extra=extras[e1]), mk(t0=2, val=10, attrs=attrs[a2], extra=extras[e2])]
            A, B = attrs[a1], attrs[a2]
            conflict = A != B
            cconf = e1 != e2 and e1 and e2
            try:
                out = list(dc.spool(ps).chunk(time=None, conflict=policy))
            except (AttributeMergeError, CoordMergeError):
                expect(policy == "raise" and (conflict or e1 != e2), "merge error")
                ctx.outcome("raised")
                continue
            expect(not (policy == "raise" and (conflict or cconf)), "conflict did not raise", A, B)
            expect(len(out) == 1, "merged", len(out))
            (o,) = out
            for f in ("gauge", "label", "data_units"):
                va, vb = (getattr(p.attrs, f, None) for p in ps)
                got = getattr(o.attrs, f, None)
                if policy == "keep_first":
                    want = va if va is not None else vb
                else:
                    want = va if va == vb else None
                expect(got == want, f"attr {f}", got, want)
            has = "zone" in o.coords.coord_map
            expect(has == bool(e1 and e2 and not cconf), "shared coordinate", has)
            want = np.concatenate([ps[0].data, ps[1].data], axis=1)
            expect(np.array_equal(np.asarray(o.data), want), "data")
            ctx.trace()
            ctx.outcome("chunk")
