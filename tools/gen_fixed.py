#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix commits of /repo (property of each, by position)."""
import json, subprocess
PROP = """Q01 Q01 Q02 Q03 Q03 Q03 F02 F01 F01 F01 F01 F01 F01 F01 F02 B06 B01 B07 B07 B09 B05 B05 B02 B02 B04 B07 B08 B02 B02 B02
B02 B07 B07 B07 B07 B03 B02 B05 B10 B06 B02 B07 B07 B06 B07 T01 T01 T01 T01 T02 T02 T02 T02 O01 M01 M02 M01 M01 M01 T01
O01 L01 L01 L03 L03 L01 L03 L02 L02 L03 B10 B04 B03 N01 N01 N01 N01 N02 N03 N02 N04 N04 N04 L01 B03
D01 D01 D01 D02 D02 D02 D03 D01 D01 S01 S01 D02""".split()
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "21ebf9c.."], text=True).splitlines()
fixes = [l for l in log if l.split(" ", 1)[1].startswith("fix:")]
assert len(fixes) == len(PROP), (len(fixes), len(PROP))
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"] = ["fixed: property=%s %s %s" % (q, l.split()[0], l.split(" ", 2)[2]) for q, l in zip(PROP, fixes)]
json.dump(d, open(p, "w"), indent=1)
print(len(fixes))
