"""Development tool: turn a bug description into /verif/seeded/<id>/ and try it.

usage: plant.py SPEC.py [--no-tests] [--check]
SPEC defines: ID, PROP, EDITS=[(file, old, new)...], NEEDS, BREAKS, DEMO (python source, exit status by assertion)
"""
import json, pathlib, runpy, subprocess as sp, sys

spec = runpy.run_path(sys.argv[1])
R = pathlib.Path("/repo")
out = pathlib.Path("/verif/seeded") / spec["ID"]
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return sp.run(cmd, shell=True, text=True, capture_output=True, **kw)


assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
try:
    for f, old, new in spec["EDITS"]:
        p = R / f
        s = p.read_text()
        assert s.count(old) == 1, (f, s.count(old), old)
        p.write_text(s.replace(old, new))
    diff = sh("git -C /repo diff").stdout
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff)
    (out / "demo.py").write_text(spec["DEMO"])
    (out / "demo.sh").write_text('#!/bin/bash\ncd "$(dirname "$0")" || exit 2\nD=$(pwd)\ncd - >/dev/null\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"\n')
    (out / "demo.sh").chmod(0o755)
    (out / "meta.json").write_text(json.dumps(dict(property=spec["PROP"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), indent=1) + "\n")
    r = sh(f"bash {out}/demo.sh", cwd="/repo")
    print("demo patched rc", r.returncode, r.stderr.strip().splitlines()[-1:] )
    ok = r.returncode != 0
    if "--no-tests" not in sys.argv:
        sh("bash /opt/vp/test.sh /tmp/out_p.json")
        b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/out_p.json"))
        miss = sorted(set(b["stable"]) - set(o["passed"]))
        print("tests broken:", miss[:6])
        ok &= not miss
    if "--check" in sys.argv:
        for c in [spec["PROP"], *spec.get("ALSO", [])]:
            r = sh(f"./run.sh {c} quick", cwd="/verif")
            print(c, "check rc", r.returncode, [x[:300] for x in r.stdout.splitlines() if "VIOLATION" in x][:2])
finally:
    sh("git -C /repo checkout -- .")
r = sh(f"bash {out}/demo.sh", cwd="/repo")
print("demo clean rc", r.returncode, r.stderr.strip().splitlines()[-1:])
ok &= r.returncode == 0
print("OK" if ok else "BAD", spec["ID"])
