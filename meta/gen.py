#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json, dexlint/meta.json and the property
part of DESIGN.md from props.py."""
import json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA

TECH = ("static analysis: path-sensitive abstract interpretation (dataflow with value numbering and branch facts, "
        "effect summaries) over the go/ssa form of the current source; no execution, no solver")

props = sorted(PROPS + NA, key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks = [{
    "property": p["id"],
    "quick_cmd": "./check.sh %s quick" % p["id"],
    "thorough_cmd": "./check.sh %s thorough" % p["id"],
    "evidence_file": "evidence/%s.json" % p["id"],
    "technique": p.get("tech", TECH),
    "level": "other",
    "level_note": "rule conformance decided on " + p["note"],
} for p in sorted(PROPS, key=lambda p: p["id"])]
man = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(NA, key=lambda p: p["id"])],
    "notes": "All checks share one analyser (dexlint) that loads /repo's current source on every run; see DESIGN.md.",
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
json.dump({p["id"]: {"explain": p["how"], "assume": p["assume"]} for p in PROPS},
          open(os.path.join(root, "dexlint", "meta.json"), "w"), indent=1)
d = open(os.path.join(here, "design_head.md")).read()
out = [d.rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    if p in NA:
        out += ["### %s %s (not applicable)" % (p["id"], p["title"]), "", p["statement"], "", "*Why not:* " + p["reason"], ""]
    else:
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "", "*Decided by:* " + p["how"], "",
                "*Bounds:* " + p["note"] + "." + ("" if not p["assume"] else " *Assumes:* " + "; ".join(p["assume"]) + "."), ""]
t = os.path.join(here, "design_tail.md")
if os.path.exists(t):
    rows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
    sd = os.path.join(root, "seeded")
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
    out += [open(t).read().rstrip().replace("SEEDTABLE", "\n".join(rows)), ""]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
