"""C04: dims, shapes, coordinate summaries in attrs, and history agree with data and coordinates at all times."""
from __future__ import annotations

import numpy as np

from mc.catalog import bases, build
from mc.core import expect
from mc.monitor import consistent, meta, ref_of
from mc.ref import initials, ops, to_patch
from mc.checks.c03 import rep

LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all operation histories (structural alphabet + every public patch method) on the real code, checking a recomputed consistency predicate in every reached state"
ASSUMPTIONS = [
    "coordinates containing NaN/NaT or no labels are exempt from min/max comparison",
    "numeric parameters of processing methods are fixed representatives",
]
BOUNDS = {
    "quick": "9 structural initial patches: all histories of length 2 of structural ops; 11 processing base patches x every public method (about 165 calls), followed by every structural op (reduced alphabet)",
    "thorough": "structural histories of length 3; every pair of public methods on 4 base patches",
}

RECORD = {
    "flip", "sort_coords", "snap_coords", "rename_coords", "drop_coords", "drop_private_coords", "update_coords",
    "coords_from_df", "add_distance_to", "set_units", "convert_units", "simplify_units", "abs", "conj", "real", "imag",
    "angle", "normalize", "standardize", "dropna", "fillna", "pad", "roll", "where", "full", "demean", "demedian",
    "detrend", "min", "max", "median", "std", "sum", "any", "all", "first", "last", "aggregate", "pass_filter",
    "sobel_filter", "median_filter", "notch_filter", "savgol_filter", "gaussian_filter", "hampel_filter",
    "wiener_filter", "slope_filter", "taper", "taper_range", "line_mute", "slope_mute", "whiten", "decimate",
    "interpolate", "resample", "align_to_coord", "correlate", "correlate_shift", "dft", "idft", "rfft", "stft", "istft",
    "spectrogram", "integrate", "differentiate", "hilbert", "envelope", "phase_weighted_stack", "stalta", "kurtosis",
    "fbe", "velocity_to_strain_rate", "velocity_to_strain_rate_edgeless", "radians_to_strain",
    "dispersion_phase_shift", "tau_p", "squeeze",
}
QUIET = {"transpose", "T", "transpose...", "select", "order", "append_dims", "set_dims"}
ATTR_OPS = {"update_attrs-tag", "update_attrs-custom", "new-attrs", "update_attrs-min", "update_attrs-units"}


def same_meta(a, b, op):
    a, b = meta(a), meta(b)
    if op.startswith("velocity_to_strain_rate"):  # defined to set the gauge length
        a.pop("gauge_length"), b.pop("gauge_length")
    expect(a == b, "unrelated attributes changed", a, b)


def attr_snapshot(patch):
    d = patch.attrs.model_dump()
    return {k: repr(v) for k, v in d.items() if k not in ("coords", "dims", "history")}


def check_history(before, after, method, same_obj):
    hb, ha = tuple(before.attrs.history), tuple(after.attrs.history)
    expect(ha[:len(hb)] == hb, "earlier history entries lost or reordered", hb, ha)
    if same_obj:
        return
    if method in QUIET:
        expect(ha == hb, f"{method} recorded history", ha)
    elif method in RECORD:
        expect(len(ha) > len(hb), f"{method} not recorded in history", ha)
        expect(ha[-1] == method or ha[-1].startswith(method + "("), f"newest history entry is not {method}", ha)


def shards(tier):
    out = []
    for name in initials():
        n = len(list(ops(initials()[name])))
        for k in range(0, n, 8):
            out.append(dict(kind="struct", init=name, first=k, n=8, depth=2 if tier == "quick" else 3))
    for b in bases():
        for k in range(0, 180, 20):
            out.append(dict(kind="proc", base=b, first=k, n=20))
        if tier != "quick" and b in ("std", "T", "plain", "rev"):
            for k in range(0, 180, 4):
                out.append(dict(kind="pairs", base=b, first=k, n=4))
    return out


def run(shard, ctx):
    globals()["run_" + shard["kind"]](shard, ctx)


def run_struct(shard, ctx):
    R = initials()[shard["init"]]
    attrs = dict(tag="t1", station="s", custom="c", data_units="m", history=["first", "second(1)"])
    p0 = to_patch(R, attrs)
    with ctx.case(dict(init=shard["init"], path=[])):
        consistent(p0)
        expect(tuple(p0.attrs.history) == ("first", "second(1)"), "history given is kept", p0.attrs.history)
    seen = set()
    level = [(R, p0, [])]
    for depth in range(shard["depth"]):
        nxt = []
        for R, patch, path in level:
            alphabet = list(ops(R, rich=depth == 0 or ctx.tier != 'quick'))
            if depth == 0:
                alphabet = alphabet[shard["first"]:shard["first"] + shard["n"]]
            base_attrs = attr_snapshot(patch)
            for name, args, real, model in alphabet:
                new = None
                spec = dict(init=shard["init"], path=[*path, [name, args]])
                with ctx.case(spec):
                    ctx.trans()
                    got = real(patch)
                    consistent(got)
                    method = name.split("-")[0]
                    method = {"rename_coords2": "rename_coords"}.get(method, method)
                    check_history(patch, got, method, got is patch)
                    expect(attr_snapshot(got) == base_attrs, "unrelated attributes changed", base_attrs, attr_snapshot(got))
                    new = (model(), got)
                    ctx.trace()
                if new is None:
                    continue
                ctx.outcome(name)
                key = (new[0].key(), rep(new[1]))
                ctx.state((shard["init"], key))
                if key not in seen:
                    seen.add(key)
                    nxt.append((*new, spec["path"]))
        level = nxt


def outs(res):
    if hasattr(res, "attrs") and hasattr(res, "coords"):
        return [res]
    if isinstance(res, list):
        return [x for x in res if hasattr(x, "attrs")]
    return []


def apply(op, patch):
    """Result patches, or None when the library refuses the call."""
    try:
        return outs(op.fn(patch))
    except Exception:  # refusals (documented errors) are other properties' business
        return None


def run_proc(shard, ctx):
    patch = bases()[shard["base"]]()
    with ctx.case(dict(base=shard["base"])):
        consistent(patch)
    todo = build(patch)[shard["first"]:shard["first"] + shard["n"]]
    for op in todo:
        results = apply(op, patch)
        ctx.trans()
        if results is None:
            ctx.outcome("refused " + op.name)
            continue
        spec = dict(base=shard["base"], op=op.name)
        with ctx.case(spec):
            for res in results:
                consistent(res)
                if op.name not in ("concat", "new-attrs"):
                    check_history(patch, res, op.method, res is patch)
                if op.name not in ATTR_OPS:
                    same_meta(patch, res, op.name)
            ctx.trace()
            ctx.outcome(op.name)
        for res in results[:1]:
            if not ctx.state((shard["base"], op.name, ref_of(res).key())):
                continue
            for name, args, real, model in ops(ref_of(res), rich=False):
                with ctx.case(dict(base=shard["base"], op=op.name, then=[name, args])):
                    ctx.trans()
                    got = real(res)
                    consistent(got)
                    method = name.split("-")[0]
                    check_history(res, got, method, got is res)
                    expect(attr_snapshot(got) == attr_snapshot(res), "unrelated attributes changed")
                    ctx.trace()


def run_pairs(shard, ctx):
    patch = bases()[shard["base"]]()
    for op in build(patch)[shard["first"]:shard["first"] + shard["n"]]:
        for res in (apply(op, patch) or [])[:1]:
            try:
                second = build(res)
            except Exception:
                continue
            for op2 in second:
                results = apply(op2, res)
                ctx.trans()
                if results is None:
                    continue
                with ctx.case(dict(base=shard["base"], path=[op.name, op2.name])):
                    for r2 in results:
                        consistent(r2)
                        ctx.state((shard["base"], op.name, op2.name))
                        if op2.name not in ("concat", "new-attrs"):
                            check_history(res, r2, op2.method, r2 is res)
                        if op2.name not in ATTR_OPS:
                            same_meta(res, r2, op2.name)
                    ctx.trace()
