"""Regenerates the per-property part of DESIGN.md from the contract modules, known_findings.jsonl and seeded/*/meta.json."""
import json, os, ast, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]; NA = json.load(open(f"{H}/tools/not_applicable.json"))
kf = [json.loads(l) for l in open(f"{H}/known_findings.jsonl")]
res = json.load(open(f"{H}/tools/seeded_results.json")) if os.path.exists(f"{H}/tools/seeded_results.json") else {}
out = ["## Properties", ""]
for p in props:
    f = f"{H}/contracts/{p['id'].lower()}.py"; out += [f"### {p['id']} {p['title']}", ""]
    if p["id"] in NA or not os.path.exists(f): out += ["Not claimed: " + NA.get(p["id"], "no check built yet") , ""]; continue
    t = ast.parse(open(f).read()); c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ("LEVEL", "NOTE"): c[n.targets[0].id] = ast.literal_eval(n.value)
            if n.targets[0].id == "PROP": c["tech"] = ast.literal_eval(n.value.args[1]); c["ass"] = ast.literal_eval(n.value.args[2]) if len(n.value.args) > 2 else []
    out += [f"*Level {c['LEVEL']}; {c['tech']}.* {c['NOTE']}", ""]
    ev = f"{H}/tools/design_counts.json"; ev = json.load(open(ev)).get(p["id"]) if os.path.exists(ev) else None
    if ev: out += [f"Last run: {ev['obligations']} obligations discharged without bound, {ev['bounded']} bounded, {ev['evaluations']} run-time contract evaluations, {ev['wall']} s on 8 cores. Functions under contract: {', '.join(ev['functions'])}.", ""]
    if c.get("ass"): out += ["Assumed: " + "; ".join(c["ass"]) + ".", ""]
    fx = [k["record"] if k.get("status") == "fixed" else "known finding: " + k["what"] for k in kf if k["property"] == p["id"]]
    if fx: out += ["Defects found: "] + [f"- {x}" for x in fx] + [""]
    sd = [d for d in sorted(os.listdir(f"{H}/seeded")) if json.load(open(f"{H}/seeded/{d}/meta.json"))["property"] == p["id"]]
    if sd: out += ["Seeded bugs: "] + [f"- {d}: {json.load(open(f'{H}/seeded/{d}/meta.json'))['what_it_breaks']} ({res.get(d, 'not yet run')})" for d in sd] + [""]
s = open(f"{H}/DESIGN.md").read()
a = s.index("@@PROPS@@") if "@@PROPS@@" in s else s.index("## Properties")
open(f"{H}/DESIGN.md", "w").write(s[:a] + "\n".join(out) + "\n")
