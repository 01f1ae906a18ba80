#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property descriptions in tools/props/*.py.

Every file there defines PROP = dict(id, title, statement, over, quantifier, why, files, mechanism, [state], technique, note).
"""
import json
import pathlib
import runpy

HERE = pathlib.Path(__file__).resolve().parent
ROOT = HERE.parent
PY = "/opt/venv/bin/python"

props = []
for f in sorted((HERE / "props").glob("*.py")):
    props.extend(runpy.run_path(str(f))["PROPS"])
props.sort(key=lambda p: p["id"])
assert len({p["id"] for p in props}) == len(props)

with open(ROOT / "properties.jsonl", "w") as fid:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}
        if p.get("state"):
            anchors["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
        fid.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quantifier"]},
            "why_tests_cant": p["why"], "anchors": anchors,
        }) + "\n")

checks = []
missing = []
for p in props:
    mods = list((ROOT / "checks").glob(p["id"].lower() + "_*.py"))
    if not mods:
        missing.append(p["id"])
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} vp/run.py {p['id']} --tier quick",
        "thorough_cmd": f"{PY} vp/run.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": f"{PY} vp/run.py --selftest",
    "checks": checks,
    "not_applicable": [{"property": m, "reason": "no check has been built for it yet"} for m in missing],
    "notes": "Every check is a Hypothesis search over generated inputs or histories against an explicit oracle; "
             "vp/run.py imports mt_metadata from /repo's working tree at run time, nothing is built.",
}, open(ROOT / "MANIFEST.json", "w"), indent=1)
open(ROOT / "MANIFEST.json", "a").write("\n")
print(len(props), "properties,", len(checks), "checks, missing:", missing)

import sys
sys.path.insert(0, str(HERE))
import mkdesign
mkdesign.write(props)
