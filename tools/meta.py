#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (and checks them against their schemas)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None,
         technique=None, note=None, level="model_checking", na=None):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        p["anchors"]["observe_at"] = observe
    p["anchors"]["hook_needed"] = hook
    PROPS.append(p)
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                       "technique": technique, "level": level, "level_note": note})


exec(open(os.path.join(V, "tools", "props.py")).read())

PROPS.sort(key=lambda p: p["id"])
CHECKS.sort(key=lambda p: p["property"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py setup",
       "hooks": {"guard": "--cfg zokrates_verif", "enable": "RUSTFLAGS=\"--cfg zokrates_verif\" (set by lib/vc.py when it builds /verif/harness, which has path dependencies on /repo's crates)",
                 "source_commits": HOOKS},
       "checks": CHECKS, "not_applicable": NA}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
    for p in PROPS:
        jsonschema.validate(p, S("PROPERTIES"))
    jsonschema.validate(man, S("MANIFEST"))
    assert len({p["id"] for p in PROPS}) == len(PROPS)
    print("valid: %d properties, %d checks, %d not applicable" % (len(PROPS), len(CHECKS), len(NA)))
except ImportError:
    print("written (jsonschema not there: not validated)")
