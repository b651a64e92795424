#!/usr/bin/env python3
"""Regenerates MANIFEST.json from monitors.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mon = json.load(open(V + "/monitors.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {"plain": "runtime monitoring: online oracle over seeded hostile and random workloads run on the real code",
        "asan": "runtime monitoring: AddressSanitizer + UndefinedBehaviorSanitizer over the workloads of all monitors",
        "tsan": "runtime monitoring: ThreadSanitizer plus a result-equality oracle over concurrent workloads"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in mon:
        c = mon[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": c.get("technique", TECH[{"S01": "asan", "S02": "tsan"}.get(i, c.get("flavour", "plain"))]),
                       "level": "exploration",
                       "level_note": c.get("note", "Holds on every execution the monitor observed (counts and distinct situations are in the evidence); "
                                     "sampled, not exhaustive. Trusts libtorch's dense kernels, the compiler, and the monitor's own oracle.")})
    else:
        na.append({"property": i, "reason": "no monitor yet (work in progress)"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: the monitors use only the public interface. Each check builds /repo's current sources itself (content-addressed cache in build/)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
