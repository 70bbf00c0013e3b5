"""C03: structural operations keep every sample with its labels (histories on real patches vs a numpy model)."""
from __future__ import annotations

import numpy as np

from mc.core import expect
from mc.ref import compare, initials, ops, to_patch

LEVEL = "model_checking"
TECHNIQUE = "explicit-state breadth-first exploration of all structural-operation histories; every transition executes the real Patch method and is compared with a labelled-numpy-array model"
ASSUMPTIONS = [
    "small scope: dimension lengths 0..4, 1-3 dimensions, one op instance per kind/coordinate/bound class",
    "duplicated labels are excluded from sort/order (their relative order is unspecified) but included in selection",
]
BOUNDS = {
    "quick": "9 initial patches; all histories of length 2 over the full alphabet (~60 ops per state), length 3 over a reduced alphabet on the richest patches",
    "thorough": "all histories of length 3 over the full alphabet, length 4 over the reduced alphabet",
}


def shards(tier):
    out = []
    for name in initials():
        first = list(ops(initials()[name]))
        for k in range(0, len(first), 6):
            out.append(dict(init=name, first=k, n=6, depth=2 if tier == "quick" else 3, rich=True))
        if tier == "quick" and name != "rich2d":
            continue
        n = len(list(ops(initials()[name], rich=False)))
        for k in range(0, n, 1):
            out.append(dict(init=name, first=k, n=1, depth=3 if tier == "quick" else 4, rich=False))
    return out


def rep(patch):
    """Representation classes: hidden state that may matter for later ops."""
    return tuple(sorted((n, type(c).__name__) for n, c in patch.coords.coord_map.items()))


def run(shard, ctx):
    R = initials()[shard["init"]]
    rich = shard["rich"]
    seen = set()
    p0 = to_patch(R)
    with ctx.case(dict(init=shard["init"], path=[])):
        compare(p0, R, "initial ")
    todo = list(ops(R, rich))[shard["first"]:shard["first"] + shard["n"]]
    level = step(ctx, shard, [(R, p0, [])], seen, rich, only=todo)
    for _ in range(shard["depth"] - 1):
        level = step(ctx, shard, level, seen, rich)


def step(ctx, shard, level, seen, rich, only=None):
    nxt = []
    for R, patch, path in level:
        for name, args, real, model in (only if only is not None else ops(R, rich)):
            spec = dict(init=shard["init"], path=[*path, [name, args]])
            new = None
            with ctx.case(spec):
                ctx.trans()
                want = model()
                got = real(patch)
                compare(got, want)
                ctx.trace()
                new = (want, got)
            if new is None:
                continue
            ctx.outcome(name)
            key = (new[0].key(), rep(new[1]))
            ctx.state((shard["init"], key))
            if key in seen:
                continue
            seen.add(key)
            nxt.append((new[0], new[1], spec["path"]))
            if len(nxt) < 3:
                ctx.sample(dict(spec, dims=new[0].dims, shape=new[0].data.shape))
        # the state itself must be untouched by all the operations applied to it
        with ctx.case(dict(init=shard["init"], path=path, after="all successors")):
            compare(patch, R, "origin changed: ")
    return nxt
