"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(__file__))
from config import CONFIG, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    if p not in CONFIG:
        continue
    c = CONFIG[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
        "technique": c.get("technique", "deterministic simulation with fault injection (seeded search, replayable)"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Sampled, not exhaustive: held on every simulated run of the seed. Oracle: " +
                            c["rule"] + " Trusts the simulator, the reference model and the compiler."),
    })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check built yet")}
      for p in props if p not in CONFIG]
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py stock std", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: every seam is at link time (file calls, heap, clock, statics) or in a "
                    "patched copy of the Abseil headers made at build time."},
          open(V + "/MANIFEST.json", "w"), indent=1)
