"""C01: coordinates represent exactly the labels they were given."""
from __future__ import annotations

import itertools

import numpy as np

from mc.core import expect
from mc.gen import DOMS, is_even, same, strictly, words

LEVEL = "model_checking"
TECHNIQUE = "bounded-exhaustive enumeration of label arrays x derivation histories on the real coordinate classes against a plain numpy array model"
RULE = "all label words over the grid alphabet, every index expression up to the bound, every 2-step derivation"
ASSUMPTIONS = [
    "labels are drawn from 4 grid positions per dtype domain; spacing is either exactly uniform or visibly non-uniform (the library documents a 0.1% tolerance for 'evenly sampled')",
    "float labels compare to within 1e-9 of the grid step",
]
BOUNDS = {
    "quick": "nearly even labels (41 deviation patterns x 3 kinds, 6 epoch-second rates) of up to 60000 samples; label arrays: every word of length<=4 over 4 grid positions x 8 dtype domains, all int/slice/mask/fancy indexers, derivation chains of depth 2",
    "thorough": "nearly even labels up to 240000 samples; label arrays: every word of length<=6 over 4 positions (5 positions up to length 5), derivation chains of depth 3",
}
LETTERS = 4


def shards(tier):
    out = []
    for d in DOMS:
        maxlen = 4 if tier == "quick" else 6
        for first in range(LETTERS):
            out.append(dict(kind="words", dom=d, first=first, maxlen=maxlen))
        out.append(dict(kind="range", dom=d, maxlen=8 if tier == "quick" else 20))
        out.append(dict(kind="long", dom=d))
        if d != "tiny":  # == on floats is documented-close (atol 1e-8)
            out.append(dict(kind="eq", dom=d, maxlen=3))
        out.append(dict(kind="twod", dom=d))
        if d != "tiny":  # update() ignores changes below its documented closeness (1e-8)
            out.append(dict(kind="update", dom=d))
    out += [dict(kind="drift", ns=x) for x in ((50, 1000), (20000,), (60000,))]
    return out


def tol_of(dom, arr):
    """Comparison slack for float labels: tiny compared with a grid step."""
    if dom.dtype.kind == "f":
        step = abs(float(dom.label(1) - dom.label(0)))
        return step * (1e-9 if dom.dtype == np.float64 else 1e-5)
    return 0


def vals_eq(got, want, dom):
    got = np.asarray(got)
    if got.shape != want.shape:
        return False
    if want.dtype.kind == "f":
        if got.dtype.kind not in "fiu":
            return False
        return bool(np.all(np.abs(got.astype("f8") - want.astype("f8")) <= tol_of(dom, want)))
    return same(got, want)


def check_coord(coord, arr, dom, units=None, full=True, what=""):
    """All observations of coord must be those of the labelled array `arr`."""
    n = len(arr)
    expect(len(coord) == n, f"{what}len", len(coord), n)
    expect(tuple(coord.shape) == arr.shape, f"{what}shape", coord.shape, arr.shape)
    expect(int(coord.size) == arr.size, f"{what}size")
    expect(coord.ndim == arr.ndim, f"{what}ndim")
    if n == 0:
        expect(np.asarray(coord.values).shape == arr.shape, f"{what}empty values")
        return
    expect(vals_eq(coord.values, arr, dom), f"{what}values", coord.values, arr)
    expect(vals_eq(np.asarray(coord), arr, dom), f"{what}np.array(coord)")
    expect(vals_eq(coord.data, arr, dom), f"{what}data")
    expect(np.asarray(coord.values).dtype.kind == dom.dtype.kind, f"{what}dtype kind", coord.values.dtype)
    expect(np.dtype(coord.dtype).kind == dom.dtype.kind, f"{what}coord.dtype", coord.dtype)
    mn, mx = arr.min(), arr.max()
    expect(vals_eq(np.asarray([coord.min(), coord.max()]), np.asarray([mn, mx]), dom),
           f"{what}min/max", coord.min(), coord.max(), mn, mx)
    expect(vals_eq(np.asarray(list(coord.limits)), np.asarray([mn, mx]), dom), f"{what}limits")
    if arr.ndim == 1:
        up = bool(np.all(arr[1:] > arr[:-1]))
        down = bool(np.all(arr[1:] < arr[:-1])) and n > 1
        if n > 1:
            # a coordinate which claims an order must have it.
            if coord.sorted:
                expect(bool(np.all(arr[1:] >= arr[:-1])), f"{what}claims sorted", arr)
            if coord.reverse_sorted:
                expect(bool(np.all(arr[1:] <= arr[:-1])), f"{what}claims reverse_sorted", arr)
            if full and up:
                expect(bool(coord.sorted), f"{what}ascending but not sorted")
            if full and down:
                expect(bool(coord.reverse_sorted), f"{what}descending but not reverse_sorted")
            expect(not (coord.sorted and coord.reverse_sorted), f"{what}both sort flags")
            d = np.unique((arr[1:] - arr[:-1]).astype("i8" if arr.dtype.kind in "mMi" else "f8"))
            even = (up or down) and (d.max() - d.min()) <= 1e-6 * abs(d).max()
            if coord.evenly_sampled:
                expect(even, f"{what}claims evenly sampled", arr)
                step = coord.step
                want_step = arr[1] - arr[0]
                ok = abs(step - want_step) <= (1e-4 * abs(want_step) if arr.dtype.kind == "f" else 0 * abs(want_step))
                expect(bool(ok), f"{what}step", step, want_step)
            elif full and even:
                expect(False, f"{what}uniform labels not evenly sampled", arr)
    summ = coord.to_summary()
    expect(vals_eq(np.asarray([summ.min, summ.max]), np.asarray([mn, mx]), dom), f"{what}summary min/max",
           summ.min, summ.max, mn, mx)
    if coord.evenly_sampled:
        expect(vals_eq(summ.to_coord().values, arr, dom), f"{what}summary.to_coord()", summ.to_coord().values, arr)
    # equality with itself through a fresh instance
    expect(coord == coord, f"{what}not equal to itself")


def indexers(n, deep=True):
    """Every slice / int / mask / small fancy index."""
    rng = [None] + (list(range(-n - 1, n + 2)) if deep or n < 4 else [-5, -3, -1, 0, 1, 3, 4])
    for a, b in itertools.product(rng, rng):
        yield ("slice", slice(a, b))
    for s in (-2, -1, 2, 3):
        for a, b in [(None, None), (1, None), (None, n - 1), (0, n), (-1, None), (None, 0)]:
            yield ("slice", slice(a, b, s))
    for mask in itertools.product((False, True), repeat=n):
        yield ("mask", np.array(mask, dtype=bool))
    for k in (1, 2, 3) if (deep or n < 4) else (2,):
        for idx in itertools.product(range(n), repeat=k):
            yield ("fancy", np.array(idx))


def py_slice(s):
    f = lambda x: None if x is ... else x
    return slice(f(s.start), f(s.stop), s.step)


def run(shard, ctx):
    globals()["run_" + shard["kind"]](shard, ctx)


def run_words(shard, ctx):
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    for gs in words(LETTERS, shard["maxlen"], 1):
        if gs[0] != shard["first"]:
            continue
        arr = dom.arr(gs)
        case = dict(dom=dom.name, word=gs)
        coord = None
        with ctx.case(case):
            before = arr.copy()
            coord = get_coord(data=arr)
            check_coord(coord, before, dom)
            expect(same(arr, before), "input array was modified")
            c2 = get_coord(data=coord)
            expect(c2 == coord, "get_coord(coord) differs")
            c3 = get_coord(data=list(arr))
            check_coord(c3, before, dom, what="from list: ")
            ctx.outcome(f"{dom.name}:{type(coord).__name__}")
        if coord is None:
            continue
        ctx.state((dom.name, gs))
        ctx.sample(case)
        n = len(gs)
        if n > 5 or (n > 3 and ctx.tier == "quick" and dom.name not in ("f", "dt_ns")):
            continue
        for r in (False, True):
            with ctx.case(dict(case, op="sort", reverse=r)):
                new, ind = coord.sort(reverse=r)
                want = np.sort(arr)[:: -1 if r else 1]
                check_coord(new, want, dom, what="sort: ")
                expect(same(arr[ind], want), "sort indexer", ind)
                ctx.trans()
        # chained indexing: every index, and for chains every second index from a small menu
        for kind, ix in indexers(n, ctx.tier != 'quick'):
            with ctx.case(dict(case, index=repr(ix))):
                got = coord[ix]
                want = arr[py_slice(ix) if kind == "slice" else ix]
                check_coord(got, want, dom, full=False, what=f"[{ix!r}]: ")
                ctx.trans()
                ctx.state((dom.name, gs, repr(ix)))
                m = len(want)
                if m > 1 and (n <= 3 or kind != "slice"):
                    for ix2 in (slice(None, None, -1), slice(1, None), np.arange(m)[::-1], np.array([m - 1, 0])):
                        check_coord(got[ix2], want[ix2], dom, full=False, what=f"[{ix!r}][{ix2!r}]: ")
                        ctx.trans()
                    check_coord(got.sort()[0], np.sort(want), dom, full=False, what=f"[{ix!r}].sort(): ")
                ctx.trace()
        for i in range(-n, n):
            with ctx.case(dict(case, item=i)):
                got = coord[i]
                expect(vals_eq(np.asarray([got]), arr[[i]], dom), f"coord[{i}]", got, arr[i])
        with ctx.case(dict(case, op="update_data")):
            new = coord.update_data(data=arr[::-1])
            check_coord(new, arr[::-1], dom, what="update_data: ")
            new = coord.update(data=arr[::-1])
            check_coord(new, arr[::-1], dom, what="update(data): ")
        if strictly(gs) in ("up", "down"):
            with ctx.case(dict(case, op="snap")):
                new = coord.snap()
                lo, hi = arr[0], arr[-1]
                expect(len(new) == n and new.evenly_sampled, "snap shape/even")
                exact = (gs[-1] - gs[0]) % (n - 1) == 0
                if exact or dom.dtype.kind == "f":
                    want = dom.arr([gs[0] + k * (gs[-1] - gs[0]) / (n - 1) for k in range(n)]) if exact else None
                    if want is not None:
                        expect(vals_eq(new.values, want, dom), "snap values", new.values, want)
                    else:
                        expect(vals_eq(new.values[[0, -1]], arr[[0, -1]], dom), "snap keeps min/max", new.values)
                ctx.trans()


def run_range(shard, ctx):
    """coords given as start/stop/step(/shape): same labels as arange."""
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    maxn = shard["maxlen"]
    for g0 in (0, 1, 3):
        for s in (1, 2, -1, -3):
            for n in range(1, maxn + 1):
                gs = [g0 + s * k for k in range(n)]
                arr = dom.arr(gs)
                start, step = arr[0], dom.label(g0 + s) - dom.label(g0)
                step = dom.delta(s)
                stop = dom.arr([g0 + s * n])[0]
                case = dict(dom=dom.name, g0=g0, s=s, n=n)
                coords = []
                with ctx.case(dict(case, how="start/stop/step")):
                    c = get_coord(start=start, stop=stop, step=step)
                    check_coord(c, arr, dom)
                    coords.append(c)
                    ctx.state((dom.name, g0, s, n))
                with ctx.case(dict(case, how="start/step/shape")):
                    c = get_coord(start=start, step=step, shape=n)
                    check_coord(c, arr, dom)
                    coords.append(c)
                with ctx.case(dict(case, how="stop/step/shape")):
                    c = get_coord(stop=stop, step=step, shape=(n,))
                    check_coord(c, arr, dom)
                    coords.append(c)
                if n > 1:
                    with ctx.case(dict(case, how="values")):
                        c = get_coord(values=arr)
                        check_coord(c, arr, dom)
                        coords.append(c)
                with ctx.case(dict(case, how="len-1 values + step")):
                    c = get_coord(values=arr[:1], step=step)
                    check_coord(c, arr[:1], dom)
                    expect(c.evenly_sampled and abs(c.step - step) <= abs(step) * 1e-6 if dom.dtype.kind == "f" else c.step == step, "step kept", c.step)
                for k, c in enumerate(coords):
                    for m in range(0, maxn + 2):
                        with ctx.case(dict(case, via=k, change_length=m)):
                            new = c.change_length(m)
                            want = dom.arr([g0 + s * j for j in range(m)])
                            check_coord(new, want, dom, what=f"change_length({m}): ")
                            ctx.trans()
                    with ctx.case(dict(case, via=k, op="coord_range")):
                        r = c.coord_range()
                        want = dom.delta(abs(s) * n)
                        expect(abs(r - want) <= tol_of(dom, arr) if dom.dtype.kind == "f" else r == want, "coord_range", r, want)
                        r = c.coord_range(extend=False)
                        want = dom.delta(abs(s) * (n - 1))
                        expect(abs(r - want) <= tol_of(dom, arr) if dom.dtype.kind == "f" else r == want, "coord_range(extend=False)", r, want)
                    for a, b, st in itertools.product((None, 0, 1, -2), (None, n - 1, -1, n + 3), (1, 2, 3, -1, -2)):
                        with ctx.case(dict(case, via=k, slice=[a, b, st])):
                            want = arr[a:b:st]
                            new = c[a:b:st]
                            check_coord(new, want, dom, what=f"[{a}:{b}:{st}] ")
                            if len(want) == 1:
                                # a strided one-sample slice keeps its (scaled) step: needed to merge later
                                pass
                            ctx.trans()
                            ctx.trace()


def run_update(shard, ctx):
    """update(min/max/step): translation / re-sampling semantics."""
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    f = dom.dtype.kind == "f"
    for gs in [(0, 1, 2, 3), (0, 2, 4), (3, 2, 1), (0, 1, 3), (3, 1, 0), (0, 3, 1), (1, 1, 2)]:
        arr = dom.arr(gs)
        for g in (-2, 0, 1, 5):
            case = dict(dom=dom.name, word=gs, to=g)
            ctx.state((dom.name, gs, g))
            with ctx.case(dict(case, op="min")):
                c = get_coord(data=arr)
                lo = min(gs)
                want = dom.arr([x - lo + g for x in gs])
                check_coord(c.update(min=dom.arr([g])[0]), want, dom, what="update(min): ")
                check_coord(c.update_limits(min=dom.arr([g])[0]), want, dom, what="update_limits(min): ")
                ctx.trans(2)
            with ctx.case(dict(case, op="max")):
                c = get_coord(data=arr)
                hi = max(gs)
                want = dom.arr([x - hi + g for x in gs])
                check_coord(c.update(max=dom.arr([g])[0]), want, dom, what="update(max): ")
                check_coord(c.update_limits(max=dom.arr([g])[0]), want, dom, what="update_limits(max): ")
                ctx.trans(2)
            if g in (1, 5) and is_even(gs):
                with ctx.case(dict(case, op="step")):
                    c = get_coord(data=arr)
                    sg = 1 if gs[1] > gs[0] else -1
                    want = dom.arr([gs[0] + sg * g * k for k in range(len(gs))])
                    step = dom.delta(sg * g)
                    check_coord(c.update(step=step), want, dom, what="update(step): ")
                    ctx.trans()
            ctx.trace()


def run_long(shard, ctx):
    """longer arrays: uniform, and uniform with one displaced label anywhere."""
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    for n in (10, 50, 1001):
        for s in (1, -1):
            base = [s * k for k in range(n)]
            for pos in [None, 0, 1, n // 2, n - 2, n - 1]:
                for dg in (0.5, -0.5):
                    gs = list(base)
                    if pos is not None:
                        gs[pos] += dg
                    elif dg < 0:
                        continue
                    arr = dom.arr(gs)
                    case = dict(dom=dom.name, n=n, s=s, pos=pos, dg=dg)
                    with ctx.case(case):
                        c = get_coord(data=arr)
                        check_coord(c, arr, dom)
                        check_coord(c[3:-2], arr[3:-2], dom, full=False)
                        check_coord(c[::-3], arr[::-3], dom, full=False)
                        check_coord(c.sort()[0], np.sort(arr), dom, full=False)
                        ctx.state((n, s, pos, dg))
                        ctx.trace()
                        ctx.trans(4)


def run_eq(shard, ctx):
    """coord equality is label + unit equality."""
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    ws = [w for w in words(3, shard["maxlen"], 1)]
    arrs = [dom.arr(w) for w in ws]
    coords = [get_coord(data=a) for a in arrs]
    unit_coords = [get_coord(data=a, units="m") for a in arrs] if dom.kind == "num" else None
    for i, j in itertools.product(range(len(ws)), repeat=2):
        with ctx.case(dict(dom=dom.name, a=ws[i], b=ws[j])):
            fresh = get_coord(data=arrs[j].copy())
            want = ws[i] == ws[j]
            expect(bool(coords[i] == fresh) == want, f"== should be {want}")
            expect(bool(coords[i] != fresh) != want, f"!= should be {not want}")
            expect(bool(coords[i].approx_equal(fresh)) == want or dom.name in ("tiny", "dt_ns"), "approx_equal")
            if unit_coords and want:
                expect(bool(coords[i] == unit_coords[j]) is False, "unit difference ignored by ==")
            ctx.trans()
            ctx.trace()
        ctx.state((ws[i], ws[j]))


def run_twod(shard, ctx):
    """2-D coordinates keep values, shape and index like arrays."""
    from dascore.core import get_coord

    dom = DOMS[shard["dom"]]
    for shape in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]:
        size = shape[0] * shape[1]
        for gs in itertools.product(range(2 if size > 4 else 3), repeat=size):
            arr = dom.arr(gs).reshape(shape)
            with ctx.case(dict(dom=dom.name, shape=shape, word=gs)):
                c = get_coord(data=arr)
                expect(same(c.values, arr) and tuple(c.shape) == shape, "2d values", c.values)
                expect(same(np.asarray([c.min(), c.max()]), np.asarray([arr.min(), arr.max()])), "2d min/max")
                for ix in (slice(None, None, -1), np.array([0]), slice(0, 1)):
                    for ax in (0, 1):
                        full = tuple(ix if a == ax else slice(None) for a in (0, 1))
                        expect(same(c[full].values, arr[full]), "2d getitem", full)
                        ctx.trans()
                ctx.state((shape, gs))
                ctx.trace()


def run_drift(shard, ctx):
    """nearly even labels: a coordinate may snap them, but not away from what was given."""
    from dascore.core import get_coord

    sizes = shard["ns"] if ctx.tier == "quick" else (*shard["ns"], shard["ns"][-1] * 4)
    t0 = np.datetime64("2020-01-02T03:04:05", "ns")
    for n in sizes:
        cases = []
        # every cyclic pattern of small deviations of the steps, also biased ones
        for word in words(3, 3, 1):
            dev = (np.resize(np.asarray(word) - 1, n - 1) * 0.0004)
            for sign in (1, -1):
                pos = np.concatenate([[0.0], np.cumsum(1 + dev)]) * sign
                cases.append((f"f:{word}:{sign}", 5.0 + pos * 0.25, 0.25))
                cases.append((f"dt:{word}:{sign}", t0 + np.rint(pos * 1e6).astype("m8[ns]"), 1e6))
                cases.append((f"i:{word}:{sign}", np.rint(pos * 1e5).astype("i8"), 1e5))
        # first half slow, second half fast
        dev = np.where(np.arange(n - 1) < n // 2, 0.0004, -0.0004)
        cases.append(("f:halves", np.concatenate([[0.0], np.cumsum(1 + dev)]), 1.0))
        # seconds since the epoch in float64, as many formats store them
        for dt in (0.25, 0.00025, 0.001, 0.01, 1 / 3, 1 / 44100):
            sec = 1577934245.0 + np.arange(n) * dt
            cases.append((f"epoch:{dt:.6g}", (np.rint(sec * 1e9)).astype("i8").view("M8[ns]"), dt * 1e9))
        for name, arr, step in cases:
            with ctx.case(dict(n=n, labels=name)):
                c = get_coord(data=arr)
                got = c.values
                expect(len(got) == n, "length", len(got))
                err = np.abs((got - arr).astype("i8" if arr.dtype.kind in "mMi" else "f8")).max()
                # labels of integers (ns) can only have an integer step
                span = (arr[-1] - arr[0]).astype("f8") if arr.dtype.kind != "f" else arr[-1] - arr[0]
                mean = abs(span / (n - 1))
                slack = abs(np.rint(mean) - mean) * n if arr.dtype.kind != "f" else 0
                expect(err <= 0.1 * step + slack, f"labels moved by {err / step:.3f} samples", name)
                ctx.outcome(f"drift:{type(c).__name__}")
                ctx.state((n, name))
                ctx.trans()
                ctx.trace()
