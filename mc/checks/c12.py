"""C12: time conversion functions are exact, consistent and order preserving."""
from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

import numpy as np
import pandas as pd

from mc.core import expect

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of instants and offsets on a boundary-rich nanosecond grid x every representation (scalars, strings, Python, pandas and numpy types of every precision) x every container with all ordered pairs of values and missing values, against integer nanosecond arithmetic"
ASSUMPTIONS = ["floats of seconds are only exact to their own resolution; the oracle is the nearest nanosecond of the exact rational value, within one unit in the last place", "values stay within the range of datetime64[ns]"]
BOUNDS = {
    "quick": "64 instants and 43 offsets x all representations; containers: all ordered pairs of a 22 value grid (+ missing) x 40 container kinds; all pairs of limits",
    "thorough": "containers with all ordered pairs of the full grids and triples of the core grid",
}

S = 10**9
MIN, MAX = -(2**63) + 1, 2**63 - 1
DAY = 86400 * S
NAT = -(2**63)


def parse(s):
    return int(np.datetime64(s, "ns").astype("i8"))


def instants():
    base = [0, 1, 999, 1000, 1001, 10**6, 10**6 - 1, S // 2, S - 1, S, S + 1, 59 * S, 60 * S, 3600 * S, DAY - 1, DAY, 365 * DAY, int(2**31) * S, (2**32) * S, 2**53, 2**53 + 1]
    out = set(base) | {-x for x in base}
    for s in ("2020-02-29T23:59:59.999999999", "2020-02-29", "2000-01-01", "1999-12-31T23:59:59.999", "2017-09-18T00:00:00.000001", "1900-02-28T12:00:00", "1931-05-06T07:08:09.000000001", "2100-03-01", "2038-01-19T03:14:07", "2024-06-15T12:34:56.789012345", "2024-06-15T12:34:56.789012", "2024-06-15T12:34:56.789", "2024-06-15T12:34:56", "2024-06-15", "1678-01-01", "2262-04-11", "2262-04-11T23:47:16.854775807", "1677-09-21T00:12:43.145224193", "2016-12-31T23:59:59.5"):
        out.add(parse(s))
    out |= {MAX - 10**10, MIN + 10**10}
    return sorted(out)


def offsets():
    base = [0, 1, 999, 1000, 10**6, 250 * 10**6, S // 3, S // 2, S - 1, S, S + 1, 90 * S, 3600 * S, DAY, DAY + 1, 400 * DAY, 10**18 + 1, 10**18, 5 * S, 10**17 + 10**3, 2**53 + 1, MAX - 10**10]
    return sorted(set(base) | {-x for x in base})


CORE = [0, 1, -1, S, -S, S // 2, -S // 2, DAY, parse("2020-02-29T23:59:59.999999999"), parse("2024-06-15T12:34:56.789012"), parse("2024-06-15T12:34:56.789"), parse("2024-06-15"), parse("1931-05-06T07:08:09.000000001"), parse("1900-02-28T12:00:00"), 1000, 10**6, -10**6, -DAY, 10**18 + 1, parse("2017-09-18T00:00:00.000001"), parse("2262-04-11")]
UNITS = dict(ns=1, us=10**3, ms=10**6, s=S, m=60 * S, h=3600 * S, D=DAY)


def fns():
    from dascore.utils import time as t

    return t


# ---------------------------------------------------------------- scalar representations
def np_units(x, kind):
    for u, f in UNITS.items():
        if x % f == 0:
            yield f"{kind}[{u}]", np.datetime64(x // f, u) if kind == "M8" else np.timedelta64(x // f, u)


def number_reps(x):
    """Seconds which are exactly x ns."""
    if x % S == 0:
        k = x // S
        yield "int", k
        for dt in ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"):
            info = np.iinfo(dt)
            if info.min <= k <= info.max:
                yield dt, np.dtype(dt).type(k)
        yield "bool" if k in (0, 1) else "int again", bool(k) if k in (0, 1) else k
    f = x / S
    if x == 0 or (abs(x) < 2**53 and f * S == x):
        yield "float", f
        yield "np.float64", np.float64(f)
        if float(np.float32(f)) == f and int(np.float32(f) * np.float64(S)) == x:
            yield "np.float32", np.float32(f)


def instant_reps(x):
    yield from np_units(x, "M8")
    iso = str(np.datetime64(x, "ns"))
    yield "iso", iso
    yield "iso Z", iso + "Z"
    yield "iso space", iso.replace("T", " ")
    if x % S == 0:
        yield "iso s", iso[:19]
    if x % DAY == 0:
        yield "iso date", iso[:10]
    if x % 1000 == 0:
        d = datetime(1970, 1, 1) + timedelta(microseconds=x // 1000)
        yield "datetime", d
        yield "datetime utc", d.replace(tzinfo=timezone.utc)
        if abs(x) < MAX - 2 * DAY:
            for h in (-11, 5.5):
                tz = timezone(timedelta(hours=h))
                yield f"datetime tz{h}", d.replace(tzinfo=timezone.utc).astimezone(tz)
    if abs(x) < MAX - DAY:
        ts = pd.Timestamp(x, unit="ns")
        for u in ("ns", "us", "ms", "s"):
            if x % UNITS[u] == 0:
                yield f"Timestamp[{u}]", ts.as_unit(u)
        yield "Timestamp tz", ts.tz_localize("UTC").tz_convert("US/Eastern") if abs(x) < 2**62 else ts.tz_localize("UTC")
    yield from number_reps(x)
    for n, td in np_units(x, "m8"):
        yield n, td


def offset_reps(x):
    yield from np_units(x, "m8")
    yield "str ns", f"{x} nanoseconds"
    yield "str ns1", f"{x} nanosecond"
    for name, f in (("microsecond", 10**3), ("millisecond", 10**6), ("second", S), ("minute", 60 * S), ("hour", 3600 * S), ("day", DAY)):
        if x % f == 0:
            yield f"str {name}", f"{x // f} {name}s"
    yield "str(td)", str(np.timedelta64(x, "ns"))
    if x % 1000 == 0:
        yield "timedelta", timedelta(microseconds=x // 1000)
    td = pd.Timedelta(x, unit="ns")
    for u in ("ns", "us", "ms", "s"):
        if x % UNITS[u] == 0:
            yield f"Timedelta[{u}]", td.as_unit(u)
    yield from number_reps(x)


def is_ns(out, kind, x, what):
    expect(isinstance(out, np.datetime64 if kind == "M8" else np.timedelta64), f"{what}: type", type(out))
    expect(out.dtype == np.dtype(f"{kind}[ns]"), f"{what}: dtype", out.dtype)
    expect(int(out.astype("i8")) == x, f"{what}: ns", int(out.astype("i8")), x)


NULLS = [None, np.nan, pd.NaT, pd.NA, np.datetime64("NaT"), np.datetime64("NaT", "s"), float("nan"), np.float32("nan"), float("inf"), -np.inf]


# ---------------------------------------------------------------- shards
def shards(tier):
    out = [("scalar", k, 8) for k in range(8)] + [("delta", k, 8) for k in range(8)]
    out += [("floats",), ("limits",), ("nulls",), ("predicates",)]
    kinds = sorted(containers("M8")), sorted(containers("m8"))
    out += [("many", "M8", c) for c in kinds[0]] + [("many", "m8", c) for c in kinds[1]]
    return out


def run(shard, ctx):
    job = shard[0]
    dict(scalar=run_scalar, delta=run_delta, floats=run_floats, limits=run_limits, nulls=run_nulls, predicates=run_predicates, many=run_many)[job](shard, ctx)


def run_scalar(shard, ctx):
    t = fns()
    for x in instants()[shard[1]::shard[2]]:
        for name, rep in instant_reps(x):
            with ctx.case(dict(ns=x, rep=name, value=str(rep))):
                ctx.trans(3)
                ctx.state((x, name))
                out = t.to_datetime64(rep)
                is_ns(out, "M8", x, "to_datetime64")
                is_ns(t.to_datetime64(out), "M8", x, "again")
                if isinstance(rep, np.datetime64 | datetime | pd.Timestamp):
                    got = t.to_int(rep)
                    expect(int(got) == x, "to_int", got, x)
                    near(t.to_float(rep), x, "to_float")
                ctx.trace()
                ctx.outcome(name)


def run_delta(shard, ctx):
    t = fns()
    for x in offsets()[shard[1]::shard[2]]:
        for name, rep in offset_reps(x):
            with ctx.case(dict(ns=x, rep=name, value=str(rep))):
                ctx.trans(3)
                ctx.state((x, name))
                out = t.to_timedelta64(rep)
                is_ns(out, "m8", x, "to_timedelta64")
                is_ns(t.to_timedelta64(out), "m8", x, "again")
                if isinstance(rep, np.timedelta64):
                    expect(int(t.to_int(rep)) == x, "to_int", t.to_int(rep), x)
                if isinstance(rep, np.timedelta64 | timedelta | pd.Timedelta):
                    near(t.to_float(rep), x, "to_float")
                ctx.trace()
                ctx.outcome(name)


def near(got, x, what):
    """got seconds are the nearest float to x ns (within one ulp)."""
    f = x / S  # correctly rounded
    expect(abs(float(got) - f) <= np.spacing(abs(f)), f"{what}: seconds", repr(got), repr(f))


def tol(f):
    return max(1, int(np.ceil(np.spacing(abs(f)) * S)))


def run_floats(shard, ctx):
    """Floats: nearest ns, monotone, symmetric; round trips; arrays agree with scalars."""
    t = fns()
    vals = sorted({x / S for x in instants()} | {x / S for x in offsets()} | {0.1, -0.1, 1e-9, -1e-9, 0.3, 1 / 3, 1.5e9 + 0.25, -2.5e8 - 0.125, 1e-10, 4.9e-10, 5.1e-10, -5.1e-10})
    vals = [v for v in vals if abs(v) < 9.2e9]
    ext = sorted({w for v in vals for w in (v, float(np.nextafter(v, np.inf)), float(np.nextafter(v, -np.inf)))})
    from fractions import Fraction

    for fn, kind in ((t.to_datetime64, "M8"), (t.to_timedelta64, "m8")):
        prev = None
        arr = fn(np.array(ext))
        for i, v in enumerate(ext):
            with ctx.case(dict(value=repr(v), kind=kind)):
                ctx.trans()
                ctx.state((kind, v))
                out = fn(v)
                got = int(out.astype("i8"))
                exact = Fraction(v) * S
                expect(abs(got - exact) <= Fraction(1, 2) + (0 if abs(exact) < 2**52 else tol(v)), "float seconds", v, got, float(exact))
                expect(prev is None or got >= prev, "order", ext[i - 1], v)
                expect(int(arr[i].astype("i8")) == got, "array vs scalar", v)
                if kind == "m8":
                    expect(int(fn(-v).astype("i8")) == -got, "sign symmetry", v)
                back = t.to_float(out)
                expect(abs(back - v) <= 1e-9 + 2 * np.spacing(abs(v)), "round trip", v, back)
                prev = got
                ctx.trace()
                ctx.outcome("float")


def run_limits(shard, ctx):
    t = fns()
    opts = [(None, None), ("nan", None), *[(n, x) for x in CORE[:14] for n in ("M8", "str", "ts", "num")]]

    def rep(n, x):
        if n is None or n == "nan":
            return None if n is None else np.nan
        return dict(M8=np.datetime64(x, "ns"), str=str(np.datetime64(x, "ns")), ts=pd.Timestamp(x, unit="ns").as_unit("us") if x % 1000 == 0 else pd.Timestamp(x, unit="ns"), num=x // S if x % S == 0 else x / S)[n]

    wide = t.get_max_min_times(None)
    for (n1, x1), (n2, x2) in itertools.product(opts, repeat=2):
        if n1 == "num" and x1 % S and abs(x1) > 2**52 or n2 == "num" and x2 % S and abs(x2) > 2**52:
            continue
        with ctx.case(dict(lo=[n1, x1], hi=[n2, x2])):
            ctx.trans()
            ctx.state((n1, x1, n2, x2))
            a, b = rep(n1, x1), rep(n2, x2)
            if x1 is not None and x2 is not None and x1 > x2:
                try:
                    t.get_max_min_times((a, b))
                except ValueError:
                    ctx.outcome("raised")
                else:
                    expect(False, "reversed limits accepted", a, b)
                continue
            lo, hi = t.get_max_min_times((a, b))
            for got, x, w in ((lo, x1, wide[0]), (hi, x2, wide[1])):
                expect(got.dtype == np.dtype("M8[ns]"), "limit dtype", got.dtype)
                expect(int(got.astype("i8")) == (x if x is not None else int(w.astype("i8"))), "limit", got, x)
            ctx.trace()
            ctx.outcome("limits")


def run_nulls(shard, ctx):
    t = fns()
    for i, v in enumerate(NULLS):
        with ctx.case(dict(null=i, value=repr(v))):
            ctx.trans(4)
            ctx.state(("null", i))
            if not isinstance(v, np.timedelta64):
                out = t.to_datetime64(v)
                expect(np.isnat(out) and out.dtype == np.dtype("M8[ns]"), "to_datetime64 of a missing value", repr(out))
            if not isinstance(v, np.datetime64):
                out = t.to_timedelta64(v)
                expect(np.isnat(out) and out.dtype == np.dtype("m8[ns]"), "to_timedelta64 of a missing value", repr(out))
            if not (isinstance(v, float) and np.isinf(v)):
                expect(np.isnan(t.to_float(v)), "to_float of a missing value", t.to_float(v))
            ctx.trace()
            ctx.outcome("null")
    with ctx.case(dict(null="NaT str")):
        expect(np.isnat(t.to_datetime64("NaT")) and np.isnat(t.to_timedelta64("NaT")), "NaT string")
        expect(np.isnat(t.to_timedelta64(np.timedelta64("NaT", "s"))) and np.isnan(t.to_float(np.timedelta64("NaT"))), "NaT")


def run_predicates(shard, ctx):
    t = fns()
    x = parse("2024-06-15")
    dts = [np.datetime64(x, "ns"), np.datetime64("2020"), pd.Timestamp(x), np.dtype("M8[ns]"), np.dtype("M8[s]"), np.array(["2020"], "M8[s]"), np.array([], "M8[ns]"), [np.datetime64("2020")], (np.datetime64("2020"),), pd.Series(pd.to_datetime(["2020"])), np.datetime64("NaT"), np.array([["2020"]], "M8[ns]")]
    tds = [np.timedelta64(1, "s"), np.timedelta64(1, "ns"), pd.Timedelta(1, "s"), np.dtype("m8[ns]"), np.array([1], "m8[s]"), np.array([], "m8[ns]"), [np.timedelta64(1, "s")], pd.Series(pd.to_timedelta(["1s"])), np.timedelta64("NaT"), np.array([[1]], "m8[ns]")]
    no = [1, 1.0, None, "2020", np.float64(1), np.array([1.0]), np.array(["2020"]), [1, 2], pd.Series([1.0]), np.dtype("f8"), np.dtype("i8"), [], np.array([True])]
    for group, (d, td) in (("dt", (True, False)), ("td", (False, True)), ("no", (False, False))):
        for i, v in enumerate(dict(dt=dts, td=tds, no=no)[group]):
            with ctx.case(dict(group=group, i=i, value=repr(v))):
                ctx.trans(3)
                ctx.state((group, i))
                expect(bool(t.is_datetime64(v)) is d, "is_datetime64", v)
                expect(bool(t.is_timedelta64(v)) is td, "is_timedelta64", v)
                if isinstance(v, np.ndarray | np.dtype | pd.Series):
                    expect(bool(t.dtype_time_like(v)) is (d or td), "dtype_time_like", v)
                ctx.trace()
                ctx.outcome("predicate")


# ---------------------------------------------------------------- containers
def div(xs, f):
    return all(x is None or x % f == 0 for x in xs)


def containers(kind):
    """name -> function of a tuple of ns (or None), giving a container or None."""
    M = kind == "M8"
    nat = np.datetime64("NaT", "ns") if M else np.timedelta64("NaT", "ns")

    def arr(unit):
        def make(xs):
            if not div(xs, UNITS[unit]):
                return None
            return np.array([NAT if x is None else x // UNITS[unit] for x in xs], "i8").view(f"{kind}[{unit}]")
        return make

    def elems(fn, box):
        def make(xs):
            out = [None if x is None else fn(x) for x in xs]
            if any(x is not None and v is None for x, v in zip(xs, out)):
                return None
            return box(out)
        return make

    def iso(x):
        return str(np.datetime64(x, "ns"))

    def pydt(x):
        if x % 1000:
            return None
        return datetime(1970, 1, 1) + timedelta(microseconds=x // 1000) if M else timedelta(microseconds=x // 1000)

    def stamp(x):
        return pd.Timestamp(x, unit="ns") if M else pd.Timedelta(x, unit="ns")

    def npy(x):
        return np.datetime64(x, "ns") if M else np.timedelta64(x, "ns")

    def obj(v):
        out = np.empty(len(v), object)
        out[:] = v
        return out

    def num(dtype):
        def make(xs):
            if any(x is None for x in xs):
                if np.dtype(dtype).kind != "f":
                    return None
            vals = []
            for x in xs:
                if x is None:
                    vals.append(np.nan)
                    continue
                v = x // S if x % S == 0 else x / S
                if isinstance(v, float) and (abs(x) >= 2**53 or v * S != x):
                    return None
                vals.append(v)
            dt = np.dtype(dtype)
            if dt.kind != "f":
                info = np.iinfo(dt)
                if any(isinstance(v, float) or not info.min <= v <= info.max for v in vals):
                    return None
            out = np.array(vals, dtype=dt)
            if dt == np.dtype("f4") and any(v == v and float(o) != v for o, v in zip(out, vals)):
                return None
            return out
        return make

    def wrap(base, fn):
        def make(xs):
            v = base(xs)
            return None if v is None else fn(v)
        return make

    def ser(v):
        return pd.Series(v, index=[f"i{7 - i}" for i in range(len(v))])

    out = {f"array[{u}]": arr(u) for u in ("ns", "us", "ms", "s", "D")}
    out |= {f"series[{u}]": wrap(arr(u), ser) for u in ("ns", "us", "ms", "s")}
    out |= {"list np": elems(npy, list), "tuple np": elems(npy, tuple), "obj np": elems(npy, obj), "list py": elems(pydt, list), "obj py": elems(pydt, obj), "list pd": elems(stamp, list), "obj pd": elems(stamp, obj), "series pd": elems(stamp, ser), "series obj": elems(npy, lambda v: pd.Series(obj(v)))}
    out |= {f"num {d}": num(d) for d in ("f8", "f4", "i8", "i4", "i2", "i1", "u1", "u4", "u8")}
    out |= {"num list": wrap(num("f8"), lambda v: v.tolist()), "num obj": wrap(num("f8"), lambda v: obj([None if x != x else x for x in v.tolist()])), "num series": wrap(num("f8"), ser), "num int series": wrap(num("i8"), ser), "num 2d": wrap(num("f8"), lambda v: np.stack([v, v[::-1]])), "num ro": wrap(num("f8"), readonly), "num view": wrap(num("f8"), lambda v: np.repeat(v, 2)[::2])}
    out |= {"2d": wrap(arr("us"), lambda v: np.stack([v, v[::-1]])), "2d list": elems(npy, lambda v: [v, v[::-1]]) if M else wrap(arr("ns"), lambda v: [list(v), list(v[::-1])]), "ro": wrap(arr("s"), readonly)}
    if M:
        out |= {"list str": elems(iso, lambda v: ["NaT" if x is None else x for x in v]), "arr str": elems(iso, lambda v: np.array(["NaT" if x is None else x for x in v])), "series str": elems(iso, lambda v: ser(v) if any(x is not None for x in v) else None), "series strZ": elems(lambda x: iso(x) + "Z", lambda v: ser(v) if any(x is not None for x in v) else None), "obj str": elems(iso, obj), "series tz": wrap(arr("ns"), lambda v: ser(v).dt.tz_localize("UTC").dt.tz_convert("Asia/Tokyo") if all(abs(x) < 2**62 for x in v.astype("i8") if x != NAT) else None), "td arr": lambda xs: np.array([NAT if x is None else x for x in xs], "i8").view("m8[ns]"), "td arr us": lambda xs: np.array([NAT if x is None else x // 1000 for x in xs], "i8").view("m8[us]") if div(xs, 1000) else None}
    else:
        out |= {"dt arr": lambda xs: np.array([NAT if x is None else x for x in xs], "i8").view("M8[ns]"), "dt arr s": lambda xs: np.array([NAT if x is None else x // S for x in xs], "i8").view("M8[s]") if div(xs, S) else None, "list str": elems(lambda x: f"{x} nanoseconds", lambda v: ["NaT" if x is None else x for x in v]), "series str": elems(lambda x: f"{x} ns" if abs(x) < 2**52 else None, lambda v: ser(v) if any(x is not None for x in v) else None), "obj mixed": elems(npy, obj)}
    return out


def readonly(v):
    v = v.copy()
    v.setflags(write=False)
    return v


def run_many(shard, ctx):
    _, kind, name = shard
    t = fns()
    fn = t.to_datetime64 if kind == "M8" else t.to_timedelta64
    make = containers(kind)[name]
    grid = [None, *CORE] if ctx.tier == "quick" else [None, *(instants() if kind == "M8" else offsets())]
    tuples = [(), *((x,) for x in grid), *itertools.product(grid, repeat=2)]
    if ctx.tier != "quick":
        tuples += list(itertools.product([None, *CORE[:12]], repeat=3))
    for xs in tuples:
        if not xs and name in ("num 2d", "2d", "2d list", "series str", "series strZ", "series pd", "series tz", "list str", "arr str"):
            continue
        if "num" in name and xs and all(x is None for x in xs) and "obj" in name:
            continue
        val = make(xs)
        if val is None:
            continue
        with ctx.case(dict(kind=kind, container=name, ns=list(xs))):
            ctx.trans(3)
            ctx.state((kind, name, xs))
            copy = val.copy() if hasattr(val, "copy") else val
            out = fn(val)
            want = np.array([NAT if x is None else x for x in xs], "i8")
            if "2d" in name:
                want = np.stack([want, want[::-1]])
            check_out(out, val, want, kind, "convert")
            check_out(fn(out), val, want, kind, "again")
            unchanged(val, copy)
            times = isinstance(val, np.ndarray | pd.Series) and getattr(val.dtype, "kind", "O") in "mM"
            if times:
                i = t.to_int(val)
                expect(np.array_equal(np.asarray(i), want), "to_int", i, want)
                if isinstance(val, pd.Series):
                    expect(list(i.index) == list(val.index), "to_int index")
            if times or "num" in name:
                f = np.asarray(t.to_float(val), dtype="f8")
                expect(f.shape == want.shape, "to_float shape", f.shape)
                for g, x in zip(f.reshape(-1), want.reshape(-1)):
                    if x == NAT:
                        expect(np.isnan(g), "to_float of missing", g)
                    else:
                        near(g, int(x), "to_float")
            ctx.trace()
            ctx.outcome(name)


def check_out(out, val, want, kind, what):
    if isinstance(val, pd.Series):
        expect(isinstance(out, pd.Series), f"{what}: type", type(out))
        expect(list(out.index) == list(val.index), f"{what}: index", out.index)
        out = out.values
    expect(isinstance(out, np.ndarray), f"{what}: type", type(out))
    expect(out.dtype == np.dtype(f"{kind}[ns]"), f"{what}: dtype", out.dtype)
    expect(out.shape == want.shape, f"{what}: shape", out.shape, want.shape)
    expect(np.array_equal(out.astype("i8"), want), f"{what}: values", out, want)


def unchanged(val, copy):
    if isinstance(val, np.ndarray) and val.dtype.kind != "O":
        a, b = val, copy
        expect(a.dtype == b.dtype and a.tobytes() == np.ascontiguousarray(b).tobytes(), "input changed")
    elif isinstance(val, pd.Series):
        expect(val.equals(copy), "input changed")
