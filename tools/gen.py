"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from properties_def.py."""
import json
import os
from properties_def import PROPS, PLANNED, NA
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEYS = ("title", "statement", "quantifier", "why_tests_cant", "anchors")
allp = dict(PROPS)
allp.update(PLANNED)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for k in sorted(allp):
        d = {"id": k}
        d.update({x: allp[k][x] for x in KEYS})
        f.write(json.dumps(d) + "\n")
checks = [k for k in sorted(PROPS) if "level" in PROPS[k]]
NOTE = ("Verus (Z3) discharges the contracts woven into the expanded source of /repo, function by function, for all inputs; std and the "
        "external functions listed under trusted_base are assumed; what no contract reaches is searched with a stated bound by the harness and not counted as proved.")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "hooks": {"guard": "none", "enable": "no hooks: contracts are woven into rustc's macro-expanded text of /repo's crates on every run", "source_commits": []},
       "checks": [{"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k,
                   "technique": PROPS[k].get("technique", "contract-based deductive verification of the real code (Verus), failing inputs replayed on the real crates"),
                   "level": PROPS[k]["level"], "level_note": PROPS[k].get("note", NOTE)} for k in checks],
       "not_applicable": [{"property": k, "reason": NA[k]} for k in sorted(allp) if k not in checks]}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
