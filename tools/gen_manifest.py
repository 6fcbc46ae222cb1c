#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness."""
import glob, json, os
V = "/verif"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C35": "ThreadSanitizer plus an exactly-once/exclusion checker over recorded event logs under schedule perturbation",
}
DEFAULT = "ASan/UBSan/libc++-hardened execution of generated workloads, every result judged online by an independent reference oracle"
NOTE = ("Runtime monitoring: the real code runs on exhaustive small domains and boundary-biased random workloads (seeded) under sanitizers; "
        "an oracle written independently of the library judges every result. Holds on the executions counted in the evidence; "
        "inputs not generated are not covered. Trusts clang/libc++, the sanitizers and the oracles in harness/.")
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(V + "/harness/%s_*.cpp" % i.lower()):
        checks.append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH.get(i, DEFAULT), level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="no harness yet; not claimed"))
m = dict(version=1, setup_cmd="python3 run.py --setup-check", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: everything observed is public API behaviour plus sanitizer reports. known_findings.json lists recorded and repaired defects.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
