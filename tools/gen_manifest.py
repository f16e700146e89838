#!/usr/bin/env python3-vt
"""Writes MANIFEST.json: a property is claimed when gen/pNN.py exists."""
import json
import os
import jsonschema

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/gen/p%s.py" % (V, i[1:])) and i in notes:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "TLA+ specification checked with TLC; conformance of the real code by replaying "
                                    "behaviours enumerated from the specification and by judging recorded calls with the "
                                    "specification (" + notes[i]["modules"] + ")",
                       "level": "model_checking", "level_note": notes[i]["note"]})
    else:
        na.append({"property": i, "reason": "the check for this property is not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "Language: TLA+ (TLC). No hooks in the code: the driver uses the public interface of the library, built with "
              "address and undefined-behaviour sanitizers from /repo's working tree into /verif/.build."}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
