"""Collects counts of the last evidence files into tools/design_counts.json (for DESIGN.md)."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = f"{H}/tools/design_counts.json"; d = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(f"{H}/evidence/C*.json"):
    e = json.load(open(f)); c = e["coverage"]
    if e["violations"] or e["tier"] != "quick" or not c["obligations"] or not c["evaluations"]: continue
    d[e["property"]] = dict(obligations=c["discharged"], bounded=c["bounded_discharged"], evaluations=c["evaluations"], wall=round(e["wall_s"]), functions=sorted({x.split(":")[-1] if ":" in x else x for x in c["functions_under_contract"]}))
json.dump(d, open(p, "w"), indent=0, sort_keys=True)
