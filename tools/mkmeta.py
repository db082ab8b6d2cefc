#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (single source)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []
def prop(id, title, statement, over, text, tests, files, mech, observe=(), technique=None, note=None, na=None, level="proof"):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)),
        technique, note, na, level))
exec(open(os.path.join(V, "tools", "meta.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, tech, note, why, level in P:
    i = p["id"]
    if tech and os.path.exists(os.path.join(V, "props", i + ".py")):
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=why or "no check yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")
