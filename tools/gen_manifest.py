#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py C15 --build-only",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s" % i,
                 "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": CHECKS[i]["technique"], "level": "model_checking",
                 "level_note": CHECKS[i]["note"]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")} for i in ids if i not in CHECKS],
     "notes": "No hooks in /repo: harnesses compile /repo's sources as they are (clock, process start and failing system calls are replaced at link time)."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
