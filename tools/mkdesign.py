#!/usr/bin/env python3
"""Write DESIGN.md: the fixed parts, the table of contracts, the table of planted changes."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
lvl = {c["property"]: c["level"] for c in man["checks"]}
notes = json.load(open(V + "/tools/notes.json"))
vc, bounds, where = {}, {}, {}
for f in sorted(glob.glob(V + "/contracts/**/c*.go", recursive=True)):
    s = open(f).read()
    for p, n in re.findall(r"^func VC_(C\d\d)_(\w+)\(", s, re.M):
        vc.setdefault(p, []).append(n)
        where.setdefault(p, set()).add(os.path.relpath(f, V + "/contracts"))
out = open(V + "/tools/design_head.md").read()
out += "\n## 3. Per property\n\nLevel `proof`: the obligations that decide the statement are discharged for all inputs; what is\nbounded beside them is listed. Level `other`: deductive for all values, but some container or history\nthe statement quantifies over is of a fixed size (the bounds are listed), so the check is labelled bounded.\n\n"
for p in props:
    i = p["id"]
    n = notes.get(i, {})
    out += "### %s %s\n\n" % (i, p["title"])
    if n.get("design"):
        out += n["design"] + "\n\n"
    note = [c["level_note"] for c in man["checks"] if c["property"] == i]
    b = re.search(r"Bounded, not proved: (.*?)\. Trusted", note[0]) if note else None
    out += "* level `%s`; contracts in `%s`: %s\n" % (lvl.get(i, "not claimed"), "`, `".join(sorted(where.get(i, []))), ", ".join(vc.get(i, [])))
    if b:
        out += "* bounds: %s\n" % b.group(1)
    out += "\n"
out += open(V + "/tools/design_tail.md").read()
out += "\n| change | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out += "| %s | %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"], "check " + m["property"])
open(V + "/DESIGN.md", "w").write(out)
