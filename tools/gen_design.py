#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_text.py (hand written), properties.jsonl,
known-findings.txt and the seeded bugs."""
import json, os, glob, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from design_text import HEAD, TAIL, D, CATCH
T = {}
exec(open(os.path.join(here, "techniques.py")).read())
out = [HEAD.strip().replace("NPROP", str(len(D))), ""]
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out.append("## The properties, one by one\n")
for p in props:
    i = p["id"]; d = D[i]
    out.append("### %s. %s\n" % (i, p["title"]))
    out.append("*Deciding method:* %s.\n" % T[i][0])
    for k, name in (("gen", "Generated"), ("oracle", "Oracle"), ("bounds", "Bounds and cost"), ("why", "Why the tests cannot settle it"), ("note", "Notes")):
        if d.get(k): out.append("- **%s.** %s" % (name, d[k]))
    out.append("- **Trusted.** %s" % T[i][2])
    out.append("")
out.append("## Not applicable\n\nNothing: every property listed is decided by generated-input search; `not_applicable` in MANIFEST.json is empty.\n")
out.append("## Genuine defects found\n\nRepaired, each by one `fix:` commit in /repo; the check that found it passes now and reports it again\nif the commit is reversed (tried for each with `git revert -n` in the working tree):\n")
for l in open(os.path.join(root, "known-findings.txt")):
    if l.startswith("fixed: "):
        pr, c, what = l[len("fixed: property="):].strip().split(" ", 2)
        out.append("- %s `%s` %s" % (pr, c, what))
out.append("\nRecorded, not repaired:\n")
for l in open(os.path.join(root, "known-findings.txt")):
    if l.startswith("known: "):
        out.append("- " + l[7:].strip())
out.append(TAIL.strip()); out.append("")
out.append("## Planted bugs and the checks that catch them\n")
out.append("Each lies in `seeded/<id>/`, was written from the text of its property and the code, builds, passes the stable\ntests, and fails its own demonstration. `caught by` names the checks that were seen to report it with exit 1.\n")
out.append("| planted bug | what it needs | caught by |\n|---|---|---|")
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    out.append("| %s: %s | %s | %s |" % (i, d["what_it_breaks"], d["needs"], CATCH.get(i, d["property"])))
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
