#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text below plus tables generated from properties, monitors, evidence-independent facts and seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
mon = json.load(open(V + "/monitors.json"))
known = json.load(open(V + "/known_findings.json"))
text = open(V + "/tools/design_head.md").read()
out = [text, "\n## Per property\n\nOracle, generation and what counts as a distinct non-trivial case (the `rule` also appears in the evidence).\n"]
for p in props:
    m = mon[p["id"]]
    fl = ", ".join(r["flavour"] + ("+valgrind" if r.get("wrapper") else "") for r in m.get("runs", [{"flavour": "plain"}]))
    out.append("### %s %s\n\n*Monitor*: `harness/%s`; *instrumentation*: %s.\n%s\n" % (p["id"], p["title"], m["monitor"][0], fl, m["rule"]))
    if m.get("design"): out.append(m["design"] + "\n")
out.append("\n## Defects of QuantiT found and repaired\n\nEach is a `fix:` commit in /repo (`known_findings.json`, list `fixed`); the monitor of the property reports it again if it returns.\n")
for x in known["fixed"]: out.append("- " + x[len("fixed: property="):])
out.append("\n## Recorded findings\n\n" + ("\n".join("- %s: %s" % (k["property"], k["what"]) for k in known["known"]) or "None: every defect found was repaired.") + "\n")
sd = V + "/seeded"
rows = []
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    f = os.path.join(sd, d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m.get("caught_by", "not measured")))
out.append("\n## Planted bugs\n\n| id | property | needs | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len(rows), "planted bugs")
