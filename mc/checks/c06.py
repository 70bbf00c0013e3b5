"""C06: patch arithmetic pairs values by label."""
from __future__ import annotations

import itertools
import operator as o

import numpy as np

from mc.core import Skip, expect
from mc.gen import DOMS, same
from mc.monitor import consistent

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of all pairs of small labelled patches (every ordered label subset, dim order, missing dim) and operand kinds on the real code against a label-keyed dictionary model"
ASSUMPTIONS = ["labels match exactly (decimal float labels that differ in the last bit are different labels, as in Patch.select by array)", "labels within one coordinate are distinct unless both coordinates are identical (pairing is otherwise undefined)"]
BOUNDS = {
    "quick": "1-D: all pairs of ordered subsets (size<=3) of 4 grid labels, 4 label domains, 2 call forms; 2-D: 10 time layouts x 10 x 4 distance layouts x 6 dim arrangements with associated coords; 12 operators x 7 call forms x 24 operand kinds",
    "thorough": "1-D: ordered subsets up to size 4, all 6 exactly representable domains; 2-D: 14x14x8 layouts, all 12 operators",
}
BIN = {
    "add": (o.add, np.add), "sub": (o.sub, np.subtract), "mul": (o.mul, np.multiply), "div": (o.truediv, np.divide),
    "floordiv": (o.floordiv, np.floor_divide), "pow": (o.pow, np.power), "mod": (o.mod, np.mod),
    "gt": (o.gt, np.greater), "ge": (o.ge, np.greater_equal), "lt": (o.lt, np.less), "le": (o.le, np.less_equal),
    "max": (np.maximum, np.maximum), "min": (np.minimum, np.minimum), "hypot": (np.hypot, np.hypot),
}
LAY = [(0, 1, 2), (2, 1, 0), (1, 2, 3), (0, 1), (1, 3), (3, 1), (1, 0, 2), (2,), (4, 5), (0, 2, 3), (3, 2, 0), (0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)]
DLAY = [(0, 1), (1, 0), (1, 2), (0,), (0, 1, 3), (2, 0), (5,), (0, 2, 1)]


def shards(tier):
    t = tier != "quick"
    doms = [d for d in DOMS if d not in ("fd", "tiny")] if t else ["i", "f", "dt_s", "dt_ns"]
    out = [dict(kind="oned", dom=d, size=4 if t else 3, part=k) for d in doms for k in range(4)]
    out += [dict(kind="twod", i=i, nl=14 if t else 10, nd=8 if t else 4, ops=list(BIN) if t else ["sub"], arr=a)
            for i in range(14 if t else 10) for a in range(6)]
    out += [dict(kind="operands", op=op) for op in BIN]
    out += [dict(kind="partial"), dict(kind="reject"), dict(kind="unary"), dict(kind="near"), dict(kind="units")]
    return out


def run(shard, ctx):
    globals()["run_" + shard["kind"]](shard, ctx)


def mk(dims, labels, base, mult, extra=False, dtype="f8"):
    """labels: dim -> array.  Values are unique per label combination."""
    import dascore as dc

    shape = tuple(len(labels[d]) for d in dims)
    data = (np.arange(int(np.prod(shape))).reshape(shape) * mult + base).astype(dtype)
    coords = dict(labels)
    if extra:
        for d in dims:
            coords["on_" + d] = (d, np.array([float(hash_label(x)) for x in labels[d]]))
    return dc.Patch(data=data, coords=coords, dims=dims), data


def hash_label(x):
    """A number which is a function of the label alone."""
    if isinstance(x, np.datetime64 | np.timedelta64):
        return int(x.astype("int64")) % 100003
    return int(round(float(x) * 1000)) % 100003


def table(dims, labels, data):
    """dict: tuple of labels (in dims order) -> value."""
    out = {}
    for idx in np.ndindex(data.shape):
        out[tuple(key(labels[d][i]) for d, i in zip(dims, idx))] = data[idx]
    return out


def key(x):
    if isinstance(x, np.datetime64 | np.timedelta64):
        return int(x.astype("int64"))
    return float(x)


def model(p, q, fn):
    """Combine (dims, labels, data) p and q by label; returns dict keyed by frozenset((dim,label))."""
    (d1, l1, a1), (d2, l2, a2) = p, q
    t1, t2 = table(d1, l1, a1), table(d2, l2, a2)
    alld = list(d1) + [d for d in d2 if d not in d1]
    space = []
    for d in alld:
        s1 = {key(x) for x in l1[d]} if d in l1 else None
        s2 = {key(x) for x in l2[d]} if d in l2 else None
        space.append(sorted(s1 & s2 if s1 is not None and s2 is not None else s1 or s2))
    out = {}
    for combo in itertools.product(*space):
        m = dict(zip(alld, combo))
        v1, v2 = t1[tuple(m[d] for d in d1)], t2[tuple(m[d] for d in d2)]
        out[frozenset(m.items())] = fn(v1, v2)
    return out, dict(zip(alld, space))


def verify(res, want, space, what):
    expect(set(res.dims) == set(space), f"{what}dims", res.dims, list(space))
    data = np.asarray(res.data)
    labels = {d: np.asarray(res.get_array(d)) for d in res.dims}
    expect(data.shape == tuple(len(labels[d]) for d in res.dims), f"{what}shape", data.shape)
    for d in res.dims:
        got = [key(x) for x in labels[d]]
        expect(sorted(got) == space[d], f"{what}labels of {d}", got, space[d])
    for idx in np.ndindex(data.shape):
        m = frozenset((d, key(labels[d][i])) for d, i in zip(res.dims, idx))
        expect(same(data[idx], want[m]), f"{what}value at label", dict(m), data[idx], want[m])
    for n in res.coords.coord_map:
        if n.startswith("on_"):
            d = res.coords.dim_map[n]
            if len(d) != 1:
                continue
            vals = np.asarray(res.get_array(n))
            ref = [float(hash_label(x)) for x in labels[d[0]]]
            expect(vals.tolist() == ref, f"{what}associated coordinate {n} moved away from its labels", vals.tolist(), ref)
    consistent(res, what)


def perms(n, size):
    for k in range(1, size + 1):
        yield from itertools.permutations(range(n), k)


def run_oned(shard, ctx):
    dom = DOMS[shard["dom"]]
    allp = list(perms(4, shard["size"]))
    forms = {"op": lambda a, b: a - b, "uf": lambda a, b: np.subtract(a, b)}
    for n, (g1, g2) in enumerate(itertools.product(allp, allp)):
        if n % 4 != shard["part"]:
            continue
        l1, l2 = {"time": dom.arr(g1)}, {"time": dom.arr(g2)}
        form = "op" if n % 2 else "uf"
        with ctx.case(dict(dom=shard["dom"], g1=g1, g2=g2, form=form)):
            p, a = mk(("time",), l1, 1, 3, extra=True)
            q, b = mk(("time",), l2, 200, 7, extra=False)
            ctx.trans()
            ctx.state((shard["dom"], g1, g2))
            want, space = model((("time",), l1, a), (("time",), l2, b), np.subtract)
            res = forms[form](p, q)
            verify(res, want, space, "1-D: ")
            ctx.trace()
            ctx.outcome(f"{len(space['time'])} shared")


ARRS = [(("distance", "time"), ("distance", "time")), (("distance", "time"), ("time", "distance")),
        (("distance", "time"), ("time",)), (("time",), ("distance", "time")),
        (("distance", "time"), ("distance",)), (("time", "distance"), ("wave", "time"))]


def run_twod(shard, ctx):
    d1, d2 = ARRS[shard["arr"]]
    T, D = DOMS["dt_s"], DOMS["f"]
    for opname in shard["ops"]:
        op, uf = BIN[opname]
        for g2, (x1, x2) in itertools.product(LAY[: shard["nl"]], itertools.product(DLAY[: shard["nd"]], DLAY[: shard["nd"]])):
            g1 = LAY[shard["i"]]
            if "distance" not in d2 and x2 != DLAY[0]:
                continue
            if "distance" not in d1 and x1 != DLAY[0]:
                continue
            l1 = {"time": T.arr(g1), "distance": D.arr(x1)}
            l2 = {"time": T.arr(g2), "distance": D.arr(x2), "wave": np.array([5, 7, 6])}
            l1, l2 = {d: l1[d] for d in d1}, {d: l2[d] for d in d2}
            with ctx.case(dict(op=opname, dims=[d1, d2], g=[g1, g2], x=[x1, x2])):
                p, a = mk(d1, l1, 1, 3, extra=True)
                q, b = mk(d2, l2, 200, 7, extra=True)
                ctx.trans()
                ctx.state((opname, shard["arr"], g1, g2, x1, x2))
                want, space = model((d1, l1, a), (d2, l2, b), uf)
                verify(op(p, q), want, space, "2-D: ")
                ctx.trace()


# ------------------------------------------------------------------ array / scalar operands
def operand_kinds(shape):
    n = int(np.prod(shape))
    full = (np.arange(n).reshape(shape) % 5 + 1) * 1.0
    out = {
        "int": 2, "float": 2.5, "zero": 0, "neg": -1.0, "bool": True, "np.float32": np.float32(1.5),
        "np.int64": np.int64(3), "zero-d": np.array(2.0), "len1": np.array([2.0]), "full": full,
        "full-int": full.astype("i8"), "fortran": np.asfortranarray(full), "last": full[0] if len(shape) == 2 else full,
        "row": full[:1], "list": full.tolist(), "list-last": full[0].tolist() if len(shape) == 2 else full.tolist(),
        "strided": np.repeat(full, 2, axis=0)[::2], "complex": 1 + 2j, "nan": np.nan,
    }
    if len(shape) == 2:
        out["col"] = full[:, :1]
        out["1x1"] = full[:1, :1]
        out["tuple"] = tuple(full[0].tolist())
    return out


def run_operands(shard, ctx):
    import dascore as dc
    from dascore.utils.array import apply_ufunc

    name = shard["op"]
    op, uf = BIN[name]
    T, D = DOMS["dt_s"], DOMS["f"]
    shapes = [(("distance", "time"), (2, 3)), (("time", "distance"), (3, 3)), (("time",), (4,)), (("distance", "time"), (1, 3))]
    for dims, shape in shapes:
        for dt in ("f8", "i8", "f4"):
            labels = {d: (T if d == "time" else D).arr(range(s)) for d, s in zip(dims, shape)}
            for kn, val in operand_kinds(shape).items():
                p, a = mk(dims, labels, 1, 1, extra=True, dtype=dt)
                for form in ("op", "rop", "uf", "ruf", "apply", "method", "rmethod"):
                    rev = form in ("rop", "ruf", "rmethod")
                    meth = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "max": "maximum", "min": "minimum"}.get(name)
                    if form in ("method",) and meth is None:
                        continue
                    if form == "rmethod":
                        continue
                    if form == "rop" and name in ("gt", "ge", "lt", "le") and not isinstance(val, np.ndarray | np.generic):
                        pass  # python swaps the comparison, same meaning
                    ref_val = list(val) if isinstance(val, tuple) else val
                    try:
                        want = uf(ref_val, a) if rev else uf(a, ref_val)
                    except Exception:
                        continue
                    with ctx.case(dict(op=name, form=form, dims=dims, shape=shape, dtype=dt, operand=kn)):
                        ctx.trans()
                        ctx.state((name, form, shape, dt, kn))
                        if form == "op":
                            res = op(p, val)
                        elif form == "rop":
                            res = op(val, p)
                        elif form == "uf":
                            res = uf(p, val)
                        elif form == "ruf":
                            res = uf(val, p)
                        elif form == "apply":
                            res = apply_ufunc(uf, p, val)
                        else:
                            res = getattr(p, meth)(val)
                        expect(isinstance(res, dc.Patch), "result is not a patch", type(res))
                        expect(same(np.asarray(res.data), want), "values", np.asarray(res.data).tolist(), np.asarray(want).tolist())
                        expect(np.asarray(res.data).dtype == np.asarray(want).dtype, "dtype", res.data.dtype, want.dtype)
                        expect(res.coords == p.coords, "coordinates changed by a scalar/array operand")
                        consistent(res)
                        ctx.trace()
                        ctx.outcome(form)


def run_partial(shard, ctx):
    """Dimensions without labels broadcast like numpy does, or raise."""
    import dascore as dc

    T = DOMS["dt_s"]
    for n1, n2, rev in itertools.product((1, 2, 3), (1, 2, 3), (False, True)):
        for kind2 in ("label", "none"):
            with ctx.case(dict(n1=n1, n2=n2, rev=rev, kind2=kind2)):
                ctx.trans()
                ctx.state((n1, n2, rev, kind2))
                tm = {"time": T.arr(range(3))}
                a = np.arange(n1 * 3).reshape(n1, 3) * 1.0 + 1
                b = np.arange(n2 * 3).reshape(n2, 3) * 7.0 + 100
                p = dc.Patch(data=a, coords=dict(tm, distance=None) if False else tm, dims=("distance", "time"))
                c2 = dict(tm, distance=np.arange(n2) * 2.0) if kind2 == "label" else tm
                q = dc.Patch(data=b, coords=c2, dims=("distance", "time"))
                p, q = (q, p) if rev else (p, q)
                x, y = (b, a) if rev else (a, b)
                ok = n1 == n2 or n1 == 1 or (n2 == 1 and True)
                try:
                    res = p - q
                except Exception as exc:
                    expect(not ok or n1 != n2, "compatible unlabelled dimension rejected", repr(exc))
                    expect(not ((n1 == 1) or n1 == n2), "length one / equal length must broadcast", repr(exc))
                    ctx.outcome("raise")
                    return_ok = True
                    continue
                expect(ok, "incompatible lengths were combined", res.shape)
                expect(same(np.asarray(res.data), x - y), "values", np.asarray(res.data), x - y)
                if kind2 == "label" and len(res.get_coord("distance")) == n2:
                    expect(same(np.asarray(res.get_array("distance")), np.arange(n2) * 2.0), "labels lost")
                ctx.outcome("ok")
                ctx.trace()


def run_reject(shard, ctx):
    import dascore as dc

    T, D = DOMS["dt_s"], DOMS["f"]
    p, _ = mk(("distance", "time"), {"distance": D.arr(range(2)), "time": T.arr(range(3))}, 1, 1)
    cases = {
        "no shared dims": lambda: p + mk(("wave",), {"wave": np.arange(3)}, 1, 1)[0],
        "array of more dims": lambda: p + np.ones((2, 2, 3)),
        "array bad shape": lambda: p + np.ones((2, 4)),
        "array bad last": lambda: p + np.ones(2),
        "array would stretch labels": lambda: mk(("distance", "time"), {"distance": D.arr([0]), "time": T.arr(range(3))}, 1, 1)[0] + np.ones((4, 3)),
        "attrs conflict": lambda: p.update_attrs(station="a") + p.update_attrs(station="b"),
        "out": lambda: np.add(p, 1, out=np.zeros((2, 3))),
        "coord units": lambda: p.set_units(distance="m") + p.update_coords(distance=D.arr([1, 2])).set_units(distance="s"),
        "coord units same values": lambda: p.set_units(distance="m") + p.set_units(distance="s"),
    }
    for n, f in cases.items():
        with ctx.case(n):
            ctx.trans()
            ctx.state(n)
            try:
                res = f()
            except Exception as exc:
                ctx.outcome(type(exc).__name__)
                continue
            expect(False, f"{n}: accepted", repr(getattr(res, "shape", res)))


def run_unary(shard, ctx):
    T, D = DOMS["dt_s"], DOMS["f"]
    ufs = [np.abs, np.negative, np.sqrt, np.exp, np.log, np.isnan, np.isfinite, np.sign, np.floor, np.square, np.conjugate, np.logical_not]
    for dims in (("distance", "time"), ("time", "distance"), ("time",)):
        for dt in ("f8", "i8", "f4", "c16"):
            labels = {"distance": D.arr(range(2)), "time": T.arr(range(3))}
            p, a = mk(dims, {d: labels[d] for d in dims}, 1, 2, extra=True, dtype=dt)
            for uf in ufs:
                try:
                    want = uf(a)
                except TypeError:
                    continue
                with ctx.case(dict(uf=uf.__name__, dims=dims, dt=dt)):
                    ctx.trans()
                    ctx.state((uf.__name__, dims, dt))
                    res = uf(p)
                    expect(same(np.asarray(res.data), want), "values")
                    expect(res.coords == p.coords, "coords")
                    ctx.trace()
            with ctx.case(dict(neg=dims, dt=dt)):
                expect(same(np.asarray((-p).data), -a), "unary minus")
                if dt != "c16":
                    expect(same(np.asarray(p.abs().data), np.abs(a)), "abs")
                for nm, fn in (("exp", np.exp), ("log", np.log), ("isnan", np.isnan), ("is_finite", np.isfinite), ("real", np.real), ("imag", np.imag), ("conj", np.conj), ("angle", np.angle)):
                    expect(same(np.asarray(getattr(p, nm)().data), fn(a)), nm)


def run_near(shard, ctx):
    """Labels which differ by a part of the spacing are different labels, however large they are."""
    ns = lambda x: np.array(x, "i8").view("m8[ns]")  # noqa: E731
    fams = {
        "f1e5": lambda sh, n: 1e5 + np.arange(n) * 1.0 + sh * 0.25,
        "f1e4": lambda sh, n: 1e4 + np.arange(n) * 0.25 + sh * 0.0625,
        "fneg": lambda sh, n: -1e5 - np.arange(n) * 1.0 + sh * 0.25,
        "int": lambda sh, n: 10_000_000 + np.arange(n) + sh,
        "td": lambda sh, n: ns(1_000_000_000_000 + np.arange(n) * 4_000_000 + sh * 1_000_000),
        "dt": lambda sh, n: T0() + ns(np.arange(n) * 4_000_000 + sh * 1_000_000),
        "uneven": lambda sh, n: 1e5 + np.array([0, 1.0, 3.0, 3.5])[:n] + sh * 0.25,
        "tiny": lambda sh, n: np.arange(n) * 2.0**-30 + sh * 2.0**-32,
    }
    for (f, fn), n, sh, two in itertools.product(fams.items(), (2, 3, 4), (-4, -2, -1, 0, 1, 2, 3, 4), (False, True)):
        l1, l2 = {"dd": fn(0, n)}, {"dd": fn(sh, n)}
        dims = ("dd",)
        if two:
            l1["x"] = l2["x"] = np.arange(2)
            dims = ("x", "dd")
        with ctx.case(dict(fam=f, n=n, shift=sh, two=two)):
            p, a = mk(dims, l1, 1, 3)
            q, b = mk(dims, l2, 200, 7)
            ctx.trans()
            ctx.state((f, n, sh, two))
            want, space = model((dims, l1, a), (dims, l2, b), np.subtract)
            verify(p - q, want, space, "near: ")
            ctx.trace()


def T0():
    return DOMS["dt_s"].label(0)


def run_units(shard, ctx):
    """Labels in different units of the same quantity are paired by physical position."""
    import dascore as dc

    fac = {"m": 1.0, "km": 1000.0, "cm": 0.01, "mm": 0.001}
    for u1, u2, n, off, dims in itertools.product(fac, fac, (2, 3), (0, 1), (("dd",), ("x", "dd"), ("dd", "x"))):
        with ctx.case(dict(u1=u1, u2=u2, n=n, off=off, dims=dims)):
            ctx.trans()
            ctx.state((u1, u2, n, off, dims))
            pos1, pos2 = np.arange(n) * 1.0, np.arange(n) * 1.0 + off
            lab = lambda p, u: {"dd": p / fac[u], "x": np.arange(2)}  # noqa: E731
            p, a = mk(dims, {d: lab(pos1, u1)[d] for d in dims}, 1, 3)
            q, b = mk(dims, {d: lab(pos2, u2)[d] for d in dims}, 200, 7)
            p, q = p.set_units(dd=u1), q.set_units(dd=u2)
            try:
                res = p - q
            except Exception as exc:  # refusing is fine, unless the units agree
                expect(u1 != u2, "same units refused", repr(exc))
                ctx.outcome("refused " + type(exc).__name__)
                continue
            ctx.outcome("paired")
            u = res.get_coord("dd").units
            got = np.asarray(res.convert_units(dd="m").get_array("dd"))
            ia = [i for i in range(n) if any(abs(pos1[i] - x) < 1e-9 for x in pos2)]
            ib = [int(np.argmin(abs(pos2 - pos1[i]))) for i in ia]
            expect(u is not None and len(got) == len(ia), "number of shared labels", got, u)
            ax = dims.index("dd")
            expect(same(np.asarray(res.data), np.take(a, ia, ax) - np.take(b, ib, ax)), "values", np.asarray(res.data))
            expect(np.allclose(got, pos1[ia]), "labels", got, pos1[ia])
            ctx.trace()
