#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from the list of properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))

P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe, level=level))


exec(open(os.path.join(HERE, "properties.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids), "duplicate ids"

with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        print(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": anchors}), file=fd)

manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --build",
    "hooks": {
        "guard": "ARKI_VERIF",
        "enable": "check.py compiles /repo's sources with -DARKI_VERIF; no source commit needs the guard at the moment",
        "source_commits": [],
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": p["level"],
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "See DESIGN.md. known-findings.txt lists recorded and repaired defects.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
    json.dump(manifest, fd, indent=1)
    fd.write("\n")

try:
    from props import PROPS
    assert set(PROPS) == set(ids), set(PROPS) ^ set(ids)
    print(len(ids), "properties, quick total", sum(p["quick"] for p in PROPS.values()), "s")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)
    jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError as e:
    print("not validated:", e)
