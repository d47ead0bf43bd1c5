#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from contracts/levels.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts.levels import LEVELS, NOT_APPLICABLE
json.dump(dict(
    version=1,
    setup_cmd="python3-vt -c \"import z3\"",
    checks=[dict(property=k, quick_cmd=f"python3-vt check.py {k} --tier quick", thorough_cmd=f"python3-vt check.py {k} --tier thorough",
                 technique=v["technique"], level=v["level"], level_note=v["note"]) for k, v in sorted(LEVELS.items())],
    not_applicable=[dict(property=k, reason=r) for k, r in sorted(NOT_APPLICABLE.items())],
    notes="No hooks in /repo. tools/seeds.py and tools/seed.py plant the bugs under seeded/. DESIGN.md explains the method.",
), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
