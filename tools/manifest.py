#!/usr/bin/env python3
"""Writes MANIFEST.json from the catalogue."""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from catalogue import CHECKS, NOT_APPLICABLE
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if "GCS_SIMULATION" in c]
m = dict(
    version=1,
    setup_cmd="python3 tools/build.py && GSIM_EDGES=1 python3 tools/build.py",
    hooks=dict(guard="GCS_SIMULATION", enable="tools/build.py compiles /repo's sources with -DGCS_SIMULATION", source_commits=hooks),
    checks=[dict(property=i, quick_cmd=f"python3 tools/check.py {i}", thorough_cmd=f"python3 tools/check.py {i} --tier thorough", technique=c["technique"],
                 level=c["level"], level_note=c["note"], evidence_file=f"evidence/{i}.json") for i, c in CHECKS.items()],
    not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()],
)
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
