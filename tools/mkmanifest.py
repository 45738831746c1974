#!/usr/bin/env python3
"""Regenerates MANIFEST.json from harness/spec.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness.spec import SPEC, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in SPEC:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                           thorough_cmd=f"python3 check.py {i} --tier thorough", technique=SPEC[i]["technique"],
                           level="exploration",
                           level_note=SPEC[i].get("note", "Generated-input search against an independent oracle; shows the property on every "
                                      "case generated, not for all inputs. Trusts the harness' reference computations, the compiler and the installed libraries.")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks are needed: every check drives the public interfaces", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Checks compile the sources of /repo's working tree themselves (build/ is a content-addressed object cache). Replay a failure with: python3 check.py <id> --replay <file>.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not claimed")
