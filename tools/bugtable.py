"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded"), key=lambda d: (json.load(open(R + "/seeded/%s/meta.json" % d))["property"], d)):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
t = "\n".join(["<!-- bugs -->"] + rows + ["<!-- /bugs -->"])
s = open(R + "/DESIGN.md").read()
s = s.replace("BUGTABLE", t) if "BUGTABLE" in s else re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: t, s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
