#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a contracts/<id>.py, the rest is listed as not applicable."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "N02": "The transfer protocol lives in JavaScript and in a precompiled .mpy module (pymidibridge); there is no source or no deductive verifier for it here.",
 "N03": "Memory exhaustion and reaction time depend on the CircuitPython heap and the hardware; no contract over the Python source can express or decide them.",
}
# all obligations of these are bounded (stated in DESIGN.md)
EXPLORED = {"C48"}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
notes = {}
np_ = os.path.join(R, "tools", "notes.json")
if os.path.exists(np_): notes = json.load(open(np_))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(R, "contracts", i.lower() + ".py")
    if os.path.exists(f):
        src = open(f).read()
        doc = re.match(r'"""(.*?)"""', src, re.S)
        checks.append({"property": i,
            "quick_cmd": "python3-vt check.py %s --tier quick" % i,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
            "technique": "contract-based deductive verification: contracts on the real functions, path-exhaustive verification-condition generation, z3",
            "level": "exploration" if i in EXPLORED else "proof",
            "level_note": notes.get(i) or (" ".join(doc.group(1).split()) if doc else "see DESIGN.md")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no contracts built yet")})
m = {"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Verifier: /verif/vf (see DESIGN.md). Known findings and fixed defects: KNOWN_FINDINGS.json."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
