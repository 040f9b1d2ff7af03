#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.PROPS"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from common import VERIF
checks = []
for p, c in props.PROPS.items():
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --thorough",
                       technique=c.get("technique", props.TECHNIQUE), level=c.get("level", "proof"), level_note=c["note"]))
ids = [json.loads(l)["id"] for l in open(f"{VERIF}/properties.jsonl")]
na = [dict(property=i, reason=props.NA.get(i, "check under construction")) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: harnesses use the public API of /repo's crates", source_commits=[]),
         notes="fix: commits in /repo are listed in known_findings.txt")
json.dump(m, open(f"{VERIF}/MANIFEST.json", "w"), indent=1)
