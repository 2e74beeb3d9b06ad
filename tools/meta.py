#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand, the results are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
COMMON = ("Seeded random search over generated cases; nothing is established beyond the cases explored. Trusts g++ 13, "
          "glibc, the sanitizers and the oracle in /verif/props. ")


def prop(id, title, statement, text, why, files, mechanism, technique, note, over=("inputs",), observe=(), state=()):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe:
        a["observe_at"] = list(observe)
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                         why_tests_cant=why, anchors=a), technique=technique, note=note))


exec(open(os.path.join(HERE, "tools", "table.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for e in P:
        assert len(e["p"]["title"]) <= 80, e["p"]["id"]
        f.write(json.dumps(e["p"], ensure_ascii=False) + "\n")
groups = dict(l.split() for l in open(os.path.join(HERE, "groups.txt")) if l.strip())
na = {n["property"] for n in NA}
checks = []
for e in P:
    i = e["p"]["id"]
    if i in na:
        continue
    assert i in groups, i
    checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=e["technique"], level="exploration",
                       level_note=COMMON + e["note"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=NA,
         notes="No hooks in /repo: the harnesses compile /repo's own sources with sanitizers. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for e in P:
        jsonschema.validate(e["p"], s)
    print("schemas ok")
except ImportError:
    pass
