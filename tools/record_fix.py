"""record_fix.py PROPERTY COMMIT TEXT: note a repair in known_findings.json."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
e = "fixed: property=%s %s %s" % tuple(sys.argv[1:4])
if e not in d["fixed"]:
    d["fixed"].append(e)
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
