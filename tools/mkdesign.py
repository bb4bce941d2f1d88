#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md from props.py, seeded/ and known-findings.json."""
import glob, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
import props
t = open(ROOT + "/tools/DESIGN.in.md").read()
out = []
for pid, p in sorted(props.PROPS.items()):
    m = p["meta"]
    out.append("### %s %s\n\n%s\n\n*Deciding step*: %s (`harness/%s`).  *Bounds*: %s.  *Why tests cannot settle it*: %s%s\n" % (
        pid, m["title"], m["statement"], p["technique"], p["harness"][0], p["bounds"], m["why_tests_cant"], ("  *Note*: " + p["note"]) if p["note"] else ""))
for m, r in props.NOT_APPLICABLE:
    out.append("### %s %s (not applicable)\n\n%s\n" % (m["id"], m["title"], r))
t = t.replace("@@PROPS@@", "\n".join(out))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(ROOT + "/tools/caught.json")) if os.path.exists(ROOT + "/tools/caught.json") else {}
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, m["property"])))
t = t.replace("@@SEEDS@@", "\n".join(rows))
k = json.load(open(ROOT + "/known-findings.json"))
t = t.replace("@@FIXED@@", "\n".join("* " + x for x in k["fixed"]))
t = t.replace("@@FINDINGS@@", "\n".join("* %s (%s, case `%s`): %s" % (f["property"], f["id"], f["case"], f["what"]) for f in k["findings"]) or "none")
open(ROOT + "/DESIGN.md", "w").write(t)
