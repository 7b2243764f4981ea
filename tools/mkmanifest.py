#!/usr/bin/env python3
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^Verification hooks"], stdout=subprocess.PIPE).stdout.decode().split()
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "--cfg hudi_verif", "enable": "RUSTFLAGS=\"--cfg hudi_verif\" when the search harness compiles the crates", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted mechanically from /repo on every run; concrete search on the compiled crate for replays"),
            "level": c.get("level", "proof"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
