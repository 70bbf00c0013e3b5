"""Runner: python -m mc.main ID [tier] [--replay FILE] [--jobs N]."""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
from pathlib import Path

from mc import core

VERIF = Path(__file__).resolve().parent.parent


def load_known(prop):
    out = {}
    path = VERIF / "KNOWN_FINDINGS.txt"
    if not path.exists():
        return out
    for line in path.read_text().splitlines():
        if line.startswith("finding: "):
            body, _, what = line[len("finding: "):].partition(" :: ")
            fields = dict(x.split("=", 1) for x in body.split() if "=" in x)
            if fields.get("property") == prop:
                out[fields["key"]] = what
    return out


def _run_shard(args):
    prop, tier, shard, deadline, known = args
    core.worker_init()
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    ctx = core.Ctx(prop, tier, shard, deadline, known)
    try:
        mod.run(shard, ctx)
    except core.StopShard:
        pass
    except core.CaseTimeout:
        ctx.violations.append(dict(shard=core.jsonable(shard), case=None, msg="hang", key="hang"))
    except Exception as exc:
        # set-up of a shard failing means calls the property defines raised.
        ctx.violations.append(
            dict(shard=core.jsonable(shard), case="shard set-up",
                 msg=f"{type(exc).__name__}: {exc}\n{traceback.format_exc(limit=-8)}",
                 key="setup-" + core.digest(json.dumps(core.jsonable(shard)))))
    res = ctx.result()
    if len(res["states"]) > 200000:  # keep IPC small: exact count, merged by shard
        res["nstates_extra"] = len(res["states"])
        res["states"] = set()
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VPMC_JOBS", "0")) or (os.cpu_count() or 4))
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--summ", action="store_true", help="group violations (development)")
    args = ap.parse_args()
    args.all = args.all or args.summ
    prop, tier = args.prop.upper(), args.tier
    t0 = time.time()
    core.worker_init()
    import dascore

    root = str(Path(core.REPO).resolve())
    if not str(Path(dascore.__file__).resolve()).startswith(root + "/"):
        print(f"dascore imported from {dascore.__file__}, not {root}", file=sys.stderr)
        return 2
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    known = load_known(prop)
    budget = 780 if tier == "quick" else float(os.environ.get("VPMC_BUDGET", 3600 * 2))
    deadline = t0 + budget
    if args.replay:
        spec = json.loads(Path(args.replay).read_text())
        res = _run_shard((prop, spec["tier"], spec["shard"], deadline, set()))
        hits = [v for v in res["violations"] if v["key"] == spec["key"]] or res["violations"]
        for v in hits:
            print("reproduced:", json.dumps(v["case"])[:2000], "\n", v["msg"])
        print("not reproduced" if not hits else "")
        return 1 if hits else 0
    shards = list(mod.shards(tier))
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    jobs = min(args.jobs, max(1, len(shards)))
    todo = [(prop, tier, s, deadline, set(known)) for s in shards]
    agg = dict(states=set(), nstates=0, transitions=0, evaluations=0, traces=0, outcomes={},
               samples=[], violations=[], known_hits={}, capped=0, counters={}, done=0)
    pool = mp.get_context("fork").Pool(jobs)
    try:
        it = pool.imap_unordered(_run_shard, todo, chunksize=1)
        while True:
            try:
                res = it.next(timeout=max(5.0, deadline + 60 - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                agg["violations"].append(dict(shard=None, case=None, msg="worker hang", key="hang"))
                break
            agg["states"] |= res["states"]
            agg["nstates"] += res.get("nstates_extra", 0)
            for k in ("transitions", "evaluations", "traces"):
                agg[k] += res[k]
            for name in ("outcomes", "known_hits", "counters"):
                for k, v in res[name].items():
                    agg[name][k] = agg[name].get(k, 0) + v
            if len(agg["samples"]) < 6:
                agg["samples"].extend(res["samples"][:2])
            agg["violations"].extend(res["violations"])
            agg["capped"] += bool(res["capped"])
            agg["done"] += 1
            if agg["violations"] and not args.all:
                break
    finally:
        pool.terminate()
        pool.join()
    states = len(agg["states"]) + agg["nstates"]
    wall = time.time() - t0
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(
        samples=agg["samples"][:6],
        exhaustive=not agg["capped"] and not agg["violations"] and agg["done"] == len(shards),
        shards=len(shards), shards_completed=agg["done"], shards_capped=agg["capped"],
        outcomes=dict(sorted(agg["outcomes"].items())),
        bounds=getattr(mod, "BOUNDS", {}).get(tier, ""),
        counters=agg["counters"],
    )
    if level == "model_checking":
        cov.update(states=states, transitions=agg["transitions"],
                   traces_validated_against_impl=agg["traces"])
    else:
        cov.update(evaluations=agg["evaluations"], distinct_nontrivial=states,
                   rule=getattr(mod, "RULE", ""))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level=level, coverage=cov, wall_s=round(wall, 2), violations=len(agg["violations"]),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=repr))
    print(f"{prop} {tier}: evaluations={agg['evaluations']} states={states} "
          f"transitions={agg['transitions']} traces={agg['traces']} shards={agg['done']}/{len(shards)} "
          f"capped={agg['capped']} outcomes={len(agg['outcomes'])} wall={wall:.1f}s")
    for key, what in known.items():
        if key in agg["known_hits"]:
            print(f"KNOWN-FINDING: property={prop} {what}")
    if not agg["violations"]:
        return 0
    rdir = VERIF / "evidence" / "replays"
    rdir.mkdir(parents=True, exist_ok=True)
    seen = set()
    if args.summ:
        groups = {}
        for v in agg["violations"]:
            head = re.sub(r"[-\d.]+", "#", v["msg"].splitlines()[0] if v["msg"] else "")
            head = head[:90] if head.startswith("unexpected") else head.split(":")[0][:60]
            groups.setdefault(head, []).append(v)
        for head, vs in sorted(groups.items(), key=lambda x: -len(x[1])):
            print(f"--- {len(vs)} x {head}\n    {json.dumps(vs[0]['case'])[:600]}\n    {vs[0]['msg'][:700]}")
        return 1
    for v in agg["violations"]:
        if v["key"] in seen or (len(seen) >= 8 and not args.all):
            continue
        seen.add(v["key"])
        path = rdir / f"{prop}-{core.digest(v['key'])[:10]}.json"
        path.write_text(json.dumps(dict(property=prop, tier=tier, **v), indent=1))
        print(f"VIOLATION property={prop} replay={path}")
        print("   case:", json.dumps(v["case"])[:1500])
        print("   " + v["msg"][:1800].replace("\n", "\n   "))
        print("   key:", v["key"])
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
