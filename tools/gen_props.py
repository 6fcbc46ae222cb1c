#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the single place where the properties are worded)."""
import json, os
I = "include/altruct/"
X = "experimental/include/altruct/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
exec(open(os.path.join(os.path.dirname(__file__), "props_table.py")).read())
exec(open(os.path.join(os.path.dirname(__file__), "props_domain.py")).read())
for p in P:
    p["statement"] += " " + DOMAIN[p["id"]]
ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
