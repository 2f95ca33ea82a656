#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Abstract interpretation of /repo's current source (go/packages + SSA): whatever the analysis cannot decide "
        "fails the check. Trusted: the analyzer, its models of the standard library, the Go type checker and SSA builder. ")
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, na=na))

exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["qtext"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
m = dict(version=1, setup_cmd="./run.sh build", checks=[], not_applicable=[],
         notes="Every check is one run of the analyzer in /verif/analyzer over /repo's source; DESIGN.md says what each decides.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"],
                            thorough_cmd="./run.sh %s thorough" % p["id"],
                            technique=p["technique"], level="other", level_note=NOTE + p["note"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
