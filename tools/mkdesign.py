"""DESIGN.md from tools/DESIGN.tmpl.md, the evidence of the last runs and seeded/*/meta.json"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/DESIGN.tmpl.md").read()
rows = ["| id | level | functions under contract | obligations (quick run) | discharged | back ends | solver s | wall s |", "|---|---|---|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f))
    c = e["coverage"]
    be = ", ".join("%s %d" % (k, v) for k, v in c.get("backends", {}).items() if v)
    rows.append("| %s | %s | %d | %d | %d | %s | %.0f | %.0f |" % (e["property"], e["level"], len(c["functions_under_contract"]), c["obligations"], c["discharged"], be, c["solver_s"], e["wall_s"]))
t = t.replace("@@STATE@@", "\n".join(rows))
rows = ["| seed | property | what it needs to show |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
t = t.replace("@@SEEDS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
