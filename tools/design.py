"""Writes DESIGN.md from tools/design_src.md and tools/seeded_results.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/tools/seeded_results.json"))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    r = res.get(i, {})
    got = "not tried" if "caught" not in r else (m["property"] if r["caught"] else "missed")
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), got))
s = open(V + "/tools/design_src.md").read().replace("TABLE", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(s)
