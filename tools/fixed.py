"""fixed.py C10 <commit> <text>: records a fix in known_findings.json."""
import json, sys
f = "known_findings.json"
j = json.load(open(f))
j["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3]))
json.dump(j, open(f, "w"), indent=1)
