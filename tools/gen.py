#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json-like python files."""
import importlib.util
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
spec = importlib.util.spec_from_file_location("props", os.path.join(HERE, "props.py"))
props = importlib.util.module_from_spec(spec)
spec.loader.exec_module(props)

out = []
checks = []
for p in props.PROPS:
    assert len(p["title"]) <= 80, p["title"]
    assert os.path.exists(f"{ROOT}/mc/checks/{p['id'].lower()}.py"), p["id"]
    out.append(
        dict(
            id=p["id"], title=p["title"], statement=" ".join(p["statement"].split()),
            quantifier=dict(over=p["over"], text=" ".join(p["quant"].split())),
            why_tests_cant=" ".join(p["why"].split()),
            anchors=dict(
                files=p["files"],
                mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                observe_at=p["observe"],
                hook_needed=None,
            ),
        )
    )
    checks.append(
        dict(
            property=p["id"],
            quick_cmd=f"./run.sh {p['id']} quick",
            thorough_cmd=f"./run.sh {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=p.get("technique", props.TECHNIQUE),
            level=p.get("level", "model_checking"),
            level_note=" ".join(p["note"].split()),
        )
    )
with open(f"{ROOT}/properties.jsonl", "w", encoding="utf8") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
with open(f"{ROOT}/MANIFEST.json", "w", encoding="utf8") as f:
    json.dump(
        dict(
            version=1,
            setup_cmd="./setup.sh",
            checks=checks,
            not_applicable=props.NOT_APPLICABLE,
            notes=props.NOTES,
        ),
        f, indent=1, ensure_ascii=False,
    )
    f.write("\n")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
s = json.load(open("/root/.vp/MANIFEST.schema.json"))
jsonschema.validate(json.load(open(f"{ROOT}/MANIFEST.json")), s)
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for o in out:
    jsonschema.validate(o, s)
print(len(out), "properties")
