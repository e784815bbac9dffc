#!/usr/bin/env python3
"""Writes DESIGN.md from the head, the contracts and the notes."""
import json, os, sys, re, inspect
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.path.insert(0, os.path.join(R, "tools"))
from vf import run
from design_notes import NOTES
K = json.load(open(os.path.join(R, "KNOWN_FINDINGS.json")))
fixed = []
for f in K["fixed"]:
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", f)
    fixed.append("| %s | %s | %s |" % m.groups())
finds = ["* %s (%s, contract `%s`): %s" % (k["id"], k["property"], k["harness"], k["what"]) for k in K["findings"]]
seeded = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    p = os.path.join(R, "seeded", d, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p))
        seeded.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
out = open(os.path.join(R, "tools", "design_head.md")).read()
out = out.replace("@@FIXED@@", "\n".join(fixed)).replace("@@FINDINGS@@", "\n".join(finds)).replace("@@SEEDED@@", "\n".join(seeded))
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists(os.path.join(R, "contracts", i.lower() + ".py")): continue
    hs = run.load_contracts(i)
    doc = inspect.getdoc(sys.modules["contracts." + i.lower()]) or ""
    out += "### %s %s\n\n%s\n\n" % (i, p["title"], " ".join(doc.split()))
    if i in NOTES: out += NOTES[i] + "\n\n"
    t = sorted({t for h in hs for t in h.targets})
    out += "Functions under contract (%d): %s\n\n" % (len(t), ", ".join("`%s`" % x for x in t))
    for h in hs:
        d = " ".join((inspect.getdoc(h.fn) or "").split())
        n = len(h.params)
        out += "* `%s` (%s%s%s)%s\n" % (h.name, h.kind, ", %d cases" % n if n > 1 else "", ", **bounded**: " + h.bounds if h.bounds else "" if h.kind != "history" else ", **bounded**", ": " + d if d else "")
        for a in h.assumes: out += "  * assumes: %s\n" % a
    out += "\n"
open(os.path.join(R, "DESIGN.md"), "w").write(out)
print(len(out.splitlines()), "lines")
