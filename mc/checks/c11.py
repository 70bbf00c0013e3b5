"""C11: unit handling."""
from __future__ import annotations

import itertools

import numpy as np

from mc.core import Mismatch, Skip, expect
from mc.gen import same
from mc.monitor import consistent
from mc.ref import T0, sec

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of unit pairs/triples and of all set/convert/simplify histories (depth-bounded) on real coordinates and patches, against a model holding physical values in base units and a hand written unit table"
ASSUMPTIONS = ["unit scope: the table below (length, velocity, temperature, strain, frequency, ratio); results compared to 1e-9 relative"]
BOUNDS = {
    "quick": "22 units, all ordered pairs and same-dimension triples x 7 value kinds; histories depth 2 of 20 unit operations on 4 patches; selections: 5 coord units x 6 query units x 15 ranges x 4 coord kinds; arithmetic: 9x9 unit pairs x 7 operators + quantities",
    "thorough": "histories depth 3 on 6 patches",
}
# unit -> (dimension key, factor to base, offset to base): base = value * factor + offset
U = {
    "m": ("L", 1.0, 0), "km": ("L", 1000.0, 0), "cm": ("L", 0.01, 0), "mm": ("L", 0.001, 0), "ft": ("L", 0.3048, 0),
    "inch": ("L", 0.0254, 0), "10 m": ("L", 10.0, 0), "0.5 km": ("L", 500.0, 0),
    "s": ("T", 1.0, 0), "ms": ("T", 0.001, 0), "minute": ("T", 60.0, 0), "hour": ("T", 3600.0, 0),
    "m/s": ("V", 1.0, 0), "km/s": ("V", 1000.0, 0), "mm/s": ("V", 0.001, 0), "ft/minute": ("V", 0.3048 / 60, 0),
    "kelvin": ("K", 1.0, 0), "degC": ("K", 1.0, 273.15), "degF": ("K", 5 / 9, 459.67 * 5 / 9),
    "Hz": ("F", 1.0, 0), "kHz": ("F", 1000.0, 0), "1/ms": ("F", 1000.0, 0),
}
TOL = 1e-9


def base(x, u):
    _, f, o = U[u]
    return np.asarray(x) * f + o


def frombase(b, u):
    _, f, o = U[u]
    return (np.asarray(b) - o) / f


def close(a, b, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    s = max(1.0, float(np.nanmax(np.abs(b))) if b.size and not np.all(np.isnan(b)) else 1.0) if scale is None else scale
    return bool(np.all((np.abs(a - b) <= TOL * np.maximum(np.abs(b), 1e-3 * s)) | (np.isnan(a) & np.isnan(b))))


def same_unit(got, u):
    """The recorded unit is the same unit as u (None for none)."""
    import dascore as dc

    if u is None:
        return got is None
    if got is None:
        return False
    a, b = dc.get_quantity(got), dc.get_quantity(u)
    return a.units == b.units and abs(a.magnitude - b.magnitude) <= 1e-12 * abs(b.magnitude)


def shards(tier):
    out = [dict(kind="pairs", u=u) for u in U]
    depth = 2 if tier == "quick" else 3
    for pk in PATCHES if tier != "quick" else PATCHES[:4]:
        out += [dict(kind="hist", patch=pk, first=i, depth=depth) for i in range(NOPS)]
    out += [dict(kind="select", coord=c) for c in ("even", "rev", "uneven", "shuffled", "int")]
    out += [dict(kind="arith", u=u) for u in AR]
    out += [dict(kind="coords", which=w) for w in COORDS]
    out += [dict(kind="timesel"), dict(kind="filterunits"), dict(kind="misc")]
    return out


def run(shard, ctx):
    globals()["run_" + shard["kind"]](shard, ctx)


# ------------------------------------------------------------------ raw conversion
VALS = {
    "int": 3, "float": -2.5, "zero": 0.0, "arr": np.array([[0.0, 1.5], [-7.0, 1e6]]), "intarr": np.array([1, -2, 300]),
    "nan": np.array([np.nan, 1.0]), "tiny": np.array([1e-9, 2e-9]),
}


def run_pairs(shard, ctx):
    import dascore as dc
    from dascore.exceptions import UnitError
    from dascore.units import convert_units

    a = shard["u"]
    for b in U:
        for vn, v in VALS.items():
            with ctx.case(dict(frm=a, to=b, val=vn)):
                ctx.trans()
                ctx.state((a, b, vn))
                keep = np.copy(v)
                if U[a][0] != U[b][0]:
                    try:
                        res = convert_units(v, b, a)
                    except UnitError:
                        ctx.outcome("raise")
                        continue
                    raise Mismatch(f"incompatible conversion {a} -> {b} gave {res}")
                want = frombase(base(v, a), b)
                got = convert_units(v, b, a)
                expect(close(got, want), f"{a} -> {b}", got, want)
                expect(close(convert_units(v, dc.get_quantity(b), dc.get_quantity(a)), want), "as quantities")
                q = dc.get_quantity(a)
                if q.magnitude == 1 and U[a][2] == 0:
                    expect(close(convert_units(v * q, b), want), "data as quantity")
                back = convert_units(got, a, b)
                expect(close(back, np.asarray(v, dtype=float), scale=max(1, float(np.nanmax(np.abs(want))))), f"{a}->{b}->{a}", back, v)
                expect(np.array_equal(keep, v, equal_nan=True), "input changed")
                ctx.trace()
                for c in U:
                    if U[c][0] == U[a][0]:
                        ctx.trans()
                        expect(close(convert_units(got, c, b), frombase(base(v, a), c)), f"{a}->{b}->{c} differs from {a}->{c}")
    with ctx.case(dict(frm=a, none=1)):
        expect(convert_units(5.0, a, None) == 5.0, "from unit None must not change the values")
        try:
            convert_units(5.0, None, a)
        except UnitError:
            return
        raise Mismatch("conversion to None accepted")


# ------------------------------------------------------------------ coordinates
def _c(vals):
    return np.asarray(vals, dtype=float)


COORDS = {
    "even": _c([0, 1, 2, 3]), "even-off": _c([10.5, 10.75, 11.0]), "rev": _c([3, 2, 1, 0]), "neg": _c([-3, -1, 1]),
    "mono": _c([0, 1, 3, 7]), "revmono": _c([7, 3, 1]), "shuffled": _c([2, 0, 1, 5]), "single": _c([4]),
    "int": np.array([1, 2, 3]), "2d": _c([[1, 2], [3, 5]]), "long": _c(np.arange(1000) * 0.1 + 7), "dup": _c([1, 1, 2]),
}


def run_coords(shard, ctx):
    from dascore.core.coords import get_coord
    from dascore.exceptions import UnitError

    arr = COORDS[shard["which"]]
    for a, b in itertools.product(U, U):
        with ctx.case(dict(coord=shard["which"], frm=a, to=b)):
            ctx.trans()
            ctx.state((shard["which"], a, b))
            c = get_coord(data=arr, units=a)
            if U[a][0] != U[b][0]:
                try:
                    c.convert_units(b)
                except UnitError:
                    continue
                raise Mismatch(f"coord conversion {a}->{b} accepted")
            want = frombase(base(arr, a), b)
            S = max(1.0, float(np.max(np.abs(want))))
            got = c.convert_units(b)
            expect(len(got) == len(c) and close(got.values, want), f"{a}->{b} labels", got.values, want)
            expect(same_unit(got.units, b), "units record", got.units)
            expect(close(got.min(), np.min(want), S) and close(got.max(), np.max(want), S), "min/max")
            expect(c.evenly_sampled == got.evenly_sampled or arr.dtype.kind == "i", "evenly sampled changed", c, got)
            if got.evenly_sampled and len(arr) > 1:
                expect(close(got.step, want[1] - want[0]), "step", got.step)
            expect(close(c.values, arr), "source coord changed")
            bk = got.convert_units(a)
            expect(len(bk) == len(c) and close(bk.values, arr, scale=max(1, float(np.max(np.abs(want))))), "there and back", bk.values, arr)
            s = got.set_units(a)
            expect(same(s.values, got.values) and same_unit(s.units, a), "set_units changes only the record")
            n = get_coord(data=arr).convert_units(b)
            expect(close(n.values, arr) and same_unit(n.units, b), "no units: convert only sets them")
            bs = c.simplify_units()
            expect(close(bs.values, base(arr, a)), "simplify_units labels", bs.values, base(arr, a))
            q = bs.convert_units(b)
            expect(close(q.values, want), "simplify then convert", q.values, want)
            ctx.trace(5)


# ------------------------------------------------------------------ patch histories
PATCHES = ["even", "rev-T", "uneven", "none", "int", "nan"]
DU = ["m/s", "mm/s", "degC", "degF", None]
CU = ["m", "km", "ft", None]


def mkpatch(kind):
    import dascore as dc

    nt, nd = 3, 4
    t = T0 + np.arange(nt) * sec(0.5)
    x = np.arange(nd) * 2.0 + 1
    if kind.startswith("rev"):
        x = x[::-1].copy()
    if kind == "uneven":
        x = np.array([1.0, 2.0, 5.0, 7.0])
    data = np.arange(nd * nt).reshape(nd, nt) * 1.5 - 3
    if kind == "nan":
        data[1, 1] = np.nan
    if kind == "int":
        data, x = data.astype("i8"), np.array([1, 3, 5, 7])
    dims = ("distance", "time")
    p = dc.Patch(data=data, coords=dict(distance=x, time=t, depth=("distance", np.array([4.0, 2.0, 1.0, 9.0])),
                                        grid=(dims, np.arange(nd * nt).reshape(nd, nt) * 1.0)), dims=dims, attrs=dict(tag="a"))
    if kind.endswith("T"):
        p = p.transpose()
    if kind != "none":
        p = p.update(coords=p.coords.set_units(distance="m", depth="km", grid="ft", time="s")).update_attrs(data_units="m/s")
    return p


def model_ops():
    """(name, real, model) ; model state: dict name -> [values, unit] with name 'data' or a coord."""
    def setu(**kw):
        def f(S):
            for k, u in kw.items():
                S[k] = (S[k][0], u)
        return f

    def conv(**kw):
        def f(S):
            for k, u in kw.items():
                v, old = S[k]
                if old is not None:
                    if U[old][0] != U[u][0]:
                        raise ValueError
                    v = frombase(base(v, old), u)
                S[k] = (v, u)
        return f

    def simp(S):
        for k, (v, old) in list(S.items()):
            if old is not None and k != "time":
                b = {"L": "m", "T": "s", "V": "m/s", "K": "kelvin", "F": "1/s"}[U[old][0]]
                S[k] = (base(v, old), b if b in U else "Hz")

    out = []
    for u in DU:
        out.append((f"set data {u}", lambda p, u=u: p.set_units(u), setu(data=u)))
    for u in ["m/s", "mm/s", "degF", "kelvin"]:
        out.append((f"convert data {u}", lambda p, u=u: p.convert_units(u), conv(data=u)))
    for u in CU:
        out.append((f"set distance {u}", lambda p, u=u: p.set_units(distance=u), setu(distance=u)))
    for u in ["m", "km", "ft", "degC"]:
        out.append((f"convert distance {u}", lambda p, u=u: p.convert_units(distance=u), conv(distance=u)))
    out.append(("convert depth+grid", lambda p: p.convert_units(depth="m", grid="m"), conv(depth="m", grid="m")))
    out.append(("convert all", lambda p: p.convert_units("km/s", distance="km", depth="inch"), conv(data="km/s", distance="km", depth="inch")))
    out.append(("set both", lambda p: p.set_units("km/s", distance="cm"), setu(data="km/s", distance="cm")))
    out.append(("simplify", lambda p: p.simplify_units(), simp))
    out.append(("set time s", lambda p: p.set_units(time="s"), setu(time="s")))
    out.append(("convert time s", lambda p: p.convert_units(time="s"), None))
    return out


NOPS = 23


def state_of(p):
    S = {"data": (np.asarray(p.data), p.attrs.data_units)}
    for n in ("distance", "depth", "grid", "time"):
        S[n] = (np.asarray(p.get_array(n)), p.get_coord(n).units)
    return S


def check_state(p, S, what):
    got = state_of(p)
    for k, (v, u) in S.items():
        if k == "time":
            expect(same(got[k][0], v), f"{what}: time labels changed")
            continue
        expect(close(got[k][0], v), f"{what}: {k} values", got[k][0].tolist(), np.asarray(v).tolist())
        expect(same_unit(got[k][1], u), f"{what}: {k} unit record", got[k][1], u)
    consistent(p, what + ": ")
    expect(p.attrs.tag == "a", "other attrs changed")


def run_hist(shard, ctx):
    ops = model_ops()
    assert len(ops) == NOPS, len(ops)
    p0 = mkpatch(shard["patch"])
    unit0 = {"data": "m/s", "distance": "m", "depth": "km", "grid": "ft", "time": "s"}
    S0 = {k: (v, None if shard["patch"] == "none" else unit0[k]) for k, (v, _) in state_of(p0).items()}
    for path in itertools.product([shard["first"]], *[range(NOPS)] * (shard["depth"] - 1)):
        names = [ops[i][0] for i in path]
        with ctx.case(dict(patch=shard["patch"], path=names)):
            p, S = p0, dict(S0)
            for i in path:
                name, real, mod = ops[i]
                ctx.trans()
                S2 = dict(S)
                try:
                    if mod is not None:
                        mod(S2)
                    ok = True
                except ValueError:
                    ok = False
                try:
                    p2 = real(p)
                except Exception as exc:
                    expect(not ok, f"{name} raised {exc!r} after {names}")
                    expect(type(exc).__name__ == "UnitError", "error type", repr(exc))
                    ctx.outcome("raise " + name)
                    check_state(p, S, "after a refused conversion")
                    break
                expect(ok, f"{name}: incompatible conversion accepted")
                if mod is None:
                    S2["time"] = (S2["time"][0], "s")
                check_state(p2, S2, name)
                p, S = p2, S2
                ctx.outcome(name)
                ctx.state((shard["patch"], repr({k: (np.round(np.asarray(v, float), 9).tolist() if k != "time" else 0, u) for k, (v, u) in S.items()})))
            ctx.trace()


# ------------------------------------------------------------------ selection in other units
def run_select(shard, ctx):
    import dascore as dc
    from dascore.units import get_quantity as q

    kinds = {"even": np.arange(8) * 0.5, "rev": np.arange(8)[::-1] * 0.5, "uneven": np.array([0, 0.5, 2, 2.5, 3, 3.5]),
             "shuffled": np.array([2.0, 0.5, 3.5, 0.0, 1.0]), "int": np.arange(6)}
    x = kinds[shard["coord"]]
    units = ["m", "km", "cm", "ft", "10 m"]
    for cu, qu in itertools.product(units, ["m", "km", "mm", "ft", "s", "Hz"]):
        if cu == "10 m" and qu in ("Hz",):
            pass
        p = dc.Patch(data=np.arange(len(x)) * 1.0, coords=dict(distance=x), dims=("distance",)).set_units(distance=cu)
        phys = base(x, cu)
        lo_hi = [None, -0.25, 0.25, 0.75, 1.25, 2.25, 3.25]
        for lo, hi in itertools.product(lo_hi, lo_hi):
            if lo is None and hi is None or (lo is not None and hi is not None and lo > hi):
                continue
            with ctx.case(dict(coord=shard["coord"], coord_units=cu, query_units=qu, lo=lo, hi=hi)):
                ctx.trans()
                ctx.state((shard["coord"], cu, qu, lo, hi))
                fac = U[cu][1]

                def mkq(v):
                    return None if v is None else float(v * fac / U[qu][1]) * q(qu)
                sel = (mkq(lo), mkq(hi))
                if U[qu][0] != "L":
                    try:
                        p.select(distance=sel)
                    except Exception as exc:
                        expect(type(exc).__name__ in ("UnitError", "CoordError"), "error type", repr(exc))
                        ctx.outcome("refused")
                        continue
                    raise Mismatch("incompatible unit selection accepted")
                keep = np.ones(len(x), bool)
                if lo is not None:
                    keep &= phys >= lo * fac
                if hi is not None:
                    keep &= phys <= hi * fac
                got = p.select(distance=sel)
                expect(np.asarray(got.data).tolist() == np.flatnonzero(keep).tolist(), "selected samples", np.asarray(got.data).tolist(), np.flatnonzero(keep).tolist())
                if keep.any():
                    expect(same_unit(got.get_coord("distance").units, cu), "units lost", got.get_coord("distance"))
                    # mixed: one bound plain
                    if lo is not None and hi is not None:
                        mixed = p.select(distance=(lo, mkq(hi)))
                        expect(same(mixed.data, got.data), "mixed plain and quantity bounds")
                        plain = p.select(distance=(lo, hi))
                        expect(same(plain.data, got.data), "plain numbers in the unit of the coord")
                ctx.trace()


def run_timesel(shard, ctx):
    import dascore as dc
    from dascore.units import get_quantity as q

    t = T0 + np.arange(10) * sec(0.5)
    p = dc.Patch(data=np.arange(10) * 1.0, coords=dict(time=t), dims=("time",))
    fac = {"s": 1.0, "ms": 1e-3, "minute": 60.0, "us": 1e-6}
    for u, lo, hi in itertools.product(fac, (0.25, 1.0, 1.75), (2.0, 2.75, 3.5)):
        with ctx.case(dict(u=u, lo=lo, hi=hi)):
            ctx.trans()
            ctx.state((u, lo, hi))
            got = p.select(time=(lo / fac[u] * q(u), hi / fac[u] * q(u)), relative=True)
            want = [i for i in range(10) if lo <= i * 0.5 <= hi]
            expect(np.asarray(got.data).tolist() == want, "relative selection in units", np.asarray(got.data).tolist(), want)
            neg = p.select(time=(-hi / fac[u] * q(u), -lo / fac[u] * q(u)), relative=True)
            want = [i for i in range(10) if -hi <= (i - 9) * 0.5 <= -lo]
            expect(np.asarray(neg.data).tolist() == want, "relative to the end, in units", np.asarray(neg.data).tolist(), want)
            ctx.trace()


# ------------------------------------------------------------------ arithmetic
AR = ["m", "km", "ft", "s", "ms", "m/s", "km/s", None, "10 m"]


def phys(data, unit):
    """(base values, dimension exponents) of data in unit, by pint used directly."""
    import dascore as dc

    if unit is None:
        return np.asarray(data, float), {}
    qb = (1.0 * dc.get_quantity(unit)).to_base_units()
    return np.asarray(data, float) * qb.magnitude, {k: float(v) for k, v in qb.dimensionality.items()}


def run_arith(shard, ctx):
    import dascore as dc
    import operator as o

    mk = lambda d, u: dc.Patch(data=d, coords=dict(x=np.arange(3)), dims=("x",), attrs=dict(data_units=u))  # noqa: E731
    u1 = shard["u"]
    a, b = np.array([1.0, -2.0, 4.0]), np.array([3.0, 0.5, -1.0])
    ops = {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "lt": o.lt, "ge": o.ge}
    for u2, (on, op), form in itertools.product(AR, ops.items(), ("patch", "quantity", "arrayq")):
        with ctx.case(dict(u1=u1, u2=u2, op=on, form=form)):
            ctx.trans()
            ctx.state((u1, u2, on, form))
            if form != "patch" and u2 is None:
                continue
            if form in ("quantity", "rquantity"):
                bb = 2.0
                other = 2.0 * dc.get_quantity(u2)
            elif form == "arrayq":
                bb = b
                other = b * dc.get_quantity(u2)
            else:
                bb, other = b, mk(b, u2)
            pa = mk(a, u1)
            (x, dx), (y, dy) = phys(a, u1), phys(np.broadcast_to(bb, 3), u2)
            rev = form == "rquantity"
            try:
                res = op(other, pa) if rev else op(pa, other)
            except Exception as exc:
                expect(on not in ("mul", "div") or form == "patch", "product refused", repr(exc))
                if form == "patch" and u1 == u2 and u1 is not None:
                    raise
                expect(type(exc).__name__ in ("UnitError", "DimensionalityError", "IncompatiblePatchError"), "error type", repr(exc))
                # allowed for add-like with different dims, or one side without units
                expect(dx != dy or u1 is None or u2 is None or form == "patch", "compatible units refused", repr(exc))
                ctx.outcome("refused")
                continue
            if on in ("add", "sub", "lt", "ge"):
                expect(dx == dy, f"{on} of {u1} and {u2} was accepted", res.attrs.data_units)
            f = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "div": np.divide, "lt": np.less, "ge": np.greater_equal}[on]
            want = f(y, x) if rev else f(x, y)
            if on in ("lt", "ge"):
                expect(np.array_equal(np.asarray(res.data), want), "comparison", np.asarray(res.data), want)
                expect(res.attrs.data_units is None, "boolean with units")
                continue
            got, dg = phys(np.asarray(res.data), res.attrs.data_units)
            expect(close(got, want, 1), f"{on}: physical value", np.asarray(res.data), res.attrs.data_units, got, want)
            wd = dict(dx)
            if on in ("mul", "div"):
                sgn = 1 if on == "mul" else -1
                if rev:
                    wd = dict(dy)
                    for k, v in dx.items():
                        wd[k] = wd.get(k, 0) + sgn * v
                else:
                    for k, v in dy.items():
                        wd[k] = wd.get(k, 0) + sgn * v
                wd = {k: v for k, v in wd.items() if v}
            expect(dg == wd, f"{on}: dimension of the result", dg, wd)
            ctx.outcome("ok")
            ctx.trace()
    for k, (on, op) in itertools.product((2, 3, -1), {"mul": o.mul, "div": o.truediv}.items()):
        with ctx.case(dict(u1=u1, scalar=k, op=on)):
            ctx.trans()
            res = op(mk(a, u1), k)
            expect(same(np.asarray(res.data), op(a, k)) and same_unit(res.attrs.data_units, u1), "plain scalar keeps the unit", res.attrs.data_units)


def run_filterunits(shard, ctx):
    from dascore.units import get_filter_units, get_quantity as q

    fac = {"Hz": ("F", 1.0), "kHz": ("F", 1e3), "s": ("T", 1.0), "ms": ("T", 1e-3), "1/m": ("W", 1.0), "m": ("L", 1.0)}
    for u, (lo, hi), to in itertools.product(fac, [(2.0, 8.0), (None, 8.0), (2.0, None)], ("s", "ms", "m")):
        with ctx.case(dict(u=u, lo=lo, hi=hi, to=to)):
            ctx.trans()
            ctx.state((u, lo, hi, to))
            a, b = (None if x is None else x * q(u) for x in (lo, hi))
            kind, f = fac[u]
            tobase = {"s": 1.0, "ms": 1e-3, "m": 1.0}[to]
            okk = kind in (("F", "T") if to != "m" else ("W", "L"))
            try:
                res = get_filter_units(a, b, to)
            except Exception as exc:
                expect(not okk, "compatible filter units refused", repr(exc))
                expect(type(exc).__name__ == "UnitError", "error type", repr(exc))
                continue
            expect(okk, "incompatible filter units accepted", res)
            conv = lambda x: None if x is None else (x * f if kind in "FW" else 1 / (x * f)) * tobase  # noqa: E731
            want = [conv(lo), conv(hi)]
            if kind in "TL" and None not in want:
                want = want[::-1]
            got = [x for x in res if x is not None]
            expect(sorted(got) == got and close(sorted(got), sorted(x for x in want if x is not None), 1), "filter corners", res, want)
            ctx.trace()


def run_misc(shard, ctx):
    """Records are kept in step in every place a unit shows up."""
    import dascore as dc

    for kind in PATCHES:
        p = mkpatch(kind)
        for u in ("m", "ft", "km"):
            with ctx.case(dict(kind=kind, u=u)):
                ctx.trans()
                ctx.state((kind, u))
                r = p.convert_units(distance=u)
                expect(same_unit(r.attrs.coords["distance"].units, u), "summary units")
                expect(same_unit(r.coords.coord_map["distance"].units, u), "coord units")
                red = p.set_units("m/s", distance=u).mean("distance")
                c = red.get_coord("distance")
                expect(same_unit(c.units, u), "units of a reduced dimension")
                r2 = red.convert_units(distance="cm")
                expect(same_unit(r2.get_coord("distance").units, "cm"), "converting an unlabelled dimension")
                ctx.trace()
