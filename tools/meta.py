"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, level="model_checking", technique="", note="", state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mechanism], **({"state": state} if state else {}))),
              dict(property=id, quick_cmd="VERIF_TIER=quick python3 tools/check.py %s" % id,
                   thorough_cmd="VERIF_TIER=thorough python3 tools/check.py %s" % id,
                   evidence_file="evidence/%s.json" % id, technique=technique, level=level, level_note=note)))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, c in P:
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[c for p, c in P], not_applicable=NA,
           notes="Technique: explicit TLA+ specifications checked with TLC; bound to the implementation by validating observations "
                 "and traces of the real code against the specification. See DESIGN.md.")
if HOOKS:
    man["hooks"] = HOOKS
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
for p, c in P:
    jsonschema.validate(p, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    assert len(p["title"]) <= 80
    e = os.path.join(V, "evidence", p["id"] + ".json")
    if os.path.exists(e):
        jsonschema.validate(json.load(open(e)), json.load(open("/root/.vp/EVIDENCE.schema.json")))
print(len(P), "properties")
