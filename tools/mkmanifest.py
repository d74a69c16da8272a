"""writes MANIFEST.json from gv/props.py and properties.jsonl (run with python3-vt)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from gv.props import PROPS, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3-vt -m gv.check %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt -m gv.check %s --thorough" % i,
                       technique=p.get("technique", "contract-based deductive verification of the Go SSA (weakest preconditions by symbolic execution, loop summaries, z3/cvc5)"),
                       level=p["level"], level_note=p.get("note", "Every obligation of the contracts on the functions this property names, and on the functions they call, is discharged for all inputs; trusts the Go front end (go/ssa), the verifier's semantics and its models of the standard library (listed in the evidence).")))
na = [dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="cd gossa && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/gossa .", checks=checks, not_applicable=na,
               notes="No hooks in /repo: contracts live in gv/specs and are checked against the SSA of /repo's current source. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
