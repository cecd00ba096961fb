#!/usr/bin/env python3
# Writes MANIFEST.json from propconf.CONF and properties.jsonl.
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, H)
from propconf import CONF, NOTE
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CONF:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            technique="deterministic simulation with fault injection: seeded search over schedules%s on the real code in one process, reference-model oracle" % (", I/O and allocation faults" if CONF[i].get("faults") else ""),
            level="exploration", level_note=CONF[i].get("note", NOTE)))
    else: na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="SPMP_SIM", enable="simbuild.py compiles /repo's sources with -DSPMP_SIM (thresholds of the parallel RCM and level searches become variables); everything else is intercepted at link time", source_commits=["7615813"]),
    checks=checks, not_applicable=na)
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); print(len(checks), len(na))
