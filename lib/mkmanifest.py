#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "Trusted: TLC, the driver's projection of values read through the public interface, and the specification's own definitions (their laws are model-checked)."
T = "TLA+ specification model-checked with TLC; its transitions are replayed in the real code and logs of random histories of the real code are validated against it"
N = {
 "C08": "Every transition of the bounded register machine (2 registers, up to 2 variables, degree up to 2, components -1 and 1) is executed in the code and compared; beyond that, random histories with up to 40 variables and large exponents.",
 "C09": "The order laws are checked on the definitions for every triple of two boxes; the code is compared with the definitions on every ordered pair of larger boxes for all six module orders, and on random monomials of equal or neighbouring degree.",
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = []
na = []
NOTES = os.path.join(H, "lib", "notes.json")
if os.path.exists(NOTES):
    x = json.load(open(NOTES)); N.update(x.get("notes", {})); NA.update(x.get("na", {}))
    TECH = x.get("technique", {}); LEVEL = x.get("level", {})
else:
    TECH, LEVEL = {}, {}
for p in props:
    if os.path.exists(os.path.join(H, "checks", p.lower() + ".py")) and p not in NA:
        checks.append({"property": p, "quick_cmd": "./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": TECH.get(p, T), "level": LEVEL.get(p, "model_checking"),
                       "level_note": (N.get(p, "") + " " + TRUST).strip()})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
m = {"version": 1, "setup_cmd": "./lib/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC. No hooks in /repo: the public interfaces expose the state the specifications talk about. The fix: commits in /repo are listed in known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
