"""list the slowest obligations of the last run of every check"""
import json, glob, sys
rows = []
for f in glob.glob("/verif/evidence/C*.json"):
    d = json.load(open(f)); rows += [(o[3], d["property"], o[0], o[1], o[2]) for o in d["coverage"].get("obligation_list", [])]
for r in sorted(rows, reverse=True)[:int(sys.argv[1]) if len(sys.argv) > 1 else 15]: print(*r)
