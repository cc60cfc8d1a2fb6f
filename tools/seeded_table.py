"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json and /tmp/caught.json (name -> [ids])."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
rows = ["<!-- seeded -->", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {', '.join(caught.get(n, [])) or '-'} |")
rows.append("<!-- /seeded -->")
s = open(V + "/DESIGN.md").read()
if "<!-- seeded -->" in s:
    a, b = s.split("<!-- seeded -->")[0], s.split("<!-- /seeded -->")[1]
    s = a + "\n".join(rows) + b
else:
    s = s.replace("SEEDED_TABLE", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
