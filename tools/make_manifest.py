"""Write /verif/MANIFEST.json from the contract modules present."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(f"{HERE}/tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
checks = []; na = []
for p in props:
    path = f"{HERE}/contracts/{p.lower()}.py"
    if p in NA or not os.path.exists(path):
        na.append({"property": p, "reason": NA.get(p, "no check built yet")}); continue
    t = ast.parse(open(path).read()); c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "NOTE", "TECHNIQUE") : c[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "PROP": c["technique"] = ast.literal_eval(n.value.args[1])
    checks.append(dict(property=p, quick_cmd=f"/opt/venv/bin/python check.py {p}", thorough_cmd=f"/opt/venv/bin/python check.py {p} --thorough", evidence_file=f"evidence/{p}.json",
                       technique=c["technique"], level=c["LEVEL"], level_note=c.get("NOTE", "")))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="HERA_PSPEC_VERIF (unused: no hook was needed, obligations are generated from the unmodified source)", enable="nothing to enable", source_commits=[]),
         checks=checks, not_applicable=na, notes="see DESIGN.md")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
