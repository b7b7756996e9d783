"""Generates MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "lib"))
from registry import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = ("Exact (integer) comparison by TLC of traces recorded from the real code with the TLA+ specification %s, for random "
        "and directed inputs within small bounds%s; assumes that what holds on exactly representable data does not break on other data.")
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    specs = sorted({j["spec"] for j in P.get("jobs", [])})
    mods = [m["mod"] for m in P.get("models", [])] + [g["mod"] for g in P.get("gens", [])]
    checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": P.get("technique", "TLA+ trace validation with TLC (%s)%s" % (", ".join(specs), "; exhaustive TLC models " + ", ".join(mods) if mods else "")),
                   "level": P.get("level", "model_checking"),
                   "level_note": P.get("note", NOTE % (" and ".join("spec/%s.tla" % s for s in specs),
                                                       "; " + ", ".join(mods) + " explored exhaustively by TLC, their behaviours replayed in the code where generated" if mods else ""))})
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Specification language: TLA+ (TLC). See DESIGN.md. No hooks in /repo are needed."}, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
