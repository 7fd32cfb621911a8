#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC = "progenitor-client/src/progenitor_client.rs"
IM = "progenitor-impl/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, check=None, na=None, state=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=text), why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((d, check, na))
def chk(technique, note):
    return dict(technique=technique, level_note=" ".join(note.split()))

exec(open(os.path.join(ROOT, "tools", "proptable.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
man = dict(version=1, setup_cmd="bin/setup", checks=[], not_applicable=[])
for d, c, na in P:
    if c:
        man["checks"].append(dict(property=d["id"], quick_cmd=f"bin/check {d['id']}",
            thorough_cmd=f"VERIF_TIER=thorough bin/check {d['id']}", evidence_file=f"evidence/{d['id']}.json",
            technique=c["technique"], level="exploration", level_note=c["level_note"]))
    else:
        man["not_applicable"].append(dict(property=d["id"], reason=na))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
try:
    import jsonschema
    S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
    jsonschema.validate(man, S("MANIFEST"))
    for d, _, _ in P: jsonschema.validate(d, S("PROPERTIES"))
except ImportError: print("jsonschema not available; not validated")
