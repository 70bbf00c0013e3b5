"""Writes properties.jsonl and MANIFEST.json from one table (development helper; output is committed)."""
import json, importlib, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=["dascore/" + f for f in files],
        mechanism=[dict(name=n, where="dascore/" + w) for n, w in mech])))

exec((V / "tools" / "props.py").read_text())
with open(V / "properties.jsonl", "w") as fi:
    for x in P:
        fi.write(json.dumps(x) + "\n")
checks, na = [], []
for x in P:
    cid = x["id"]
    if not (V / "mc" / "checks" / f"{cid.lower()}.py").exists():
        na.append(dict(property=cid, reason=NA.get(cid, "Check still being built; not claimed yet.")))
        continue
    src = (V / "mc" / "checks" / f"{cid.lower()}.py").read_text()
    ns = {}
    import ast
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("LEVEL", "TECHNIQUE", "BOUNDS", "RULE"):
            try:
                ns[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append(dict(property=cid, quick_cmd=f"./run.sh {cid} quick", thorough_cmd=f"./run.sh {cid} thorough",
        technique=ns["TECHNIQUE"], level=ns["LEVEL"],
        level_note=f"Exhaustive within stated bounds. quick: {ns.get('BOUNDS', {}).get('quick', '')} thorough: {ns.get('BOUNDS', {}).get('thorough', '')}"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(P), "properties", len(checks), "claimed")
