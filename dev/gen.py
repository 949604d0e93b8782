#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
NOTE = ("Decides structural obligations over the type-checked SSA of /repo's current tree (no execution): necessary and, under the listed "
        "assumptions (real arithmetic, distinct access paths are distinct objects, user callbacks use only the exported API), sufficient for the stated property.")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/check build", "checks": [], "not_applicable": []}
for p in PROPS:
    if p.get("na"):
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "bash /verif/check " + p["id"],
        "thorough_cmd": "bash /verif/check " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p.get("note", NOTE)})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

# ---- DESIGN.md: everything from "## Properties" on is generated
from notes import NOTES
import glob
d = open(os.path.join(root, "DESIGN.md")).read().split("## Properties")[0]
d += "## Properties\n\nOne check per property (`check <id>`, 1-40 s each, both build variants, no bound). `dev/props.py` holds the statements.\n\n"
for p in PROPS:
    if p.get("na"): continue
    d += "* **%s %s.** %s\n  Technique: %s.\n  Beyond tests: %s\n" % (p["id"], p["title"].rstrip("."), NOTES[p["id"]], p["technique"].rstrip("."), p["why"])
d += "\n## Not applicable\n\n"
for p in PROPS:
    if p.get("na"): d += "* **%s %s.** %s\n" % (p["id"], p["title"].rstrip("."), p["na"])
d += "\n## Planted changes (seeded/) and the check that reports each\n\nEach was confirmed: builds, passes the tests, its demonstration fails with it and passes without it.\n\n"
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m2 = json.load(open(f))
    d += "* `%s` - %s: %s\n" % (os.path.basename(os.path.dirname(f)), m2.get("caught", "caught by " + m2["property"]), m2["what_it_breaks"])
d += "\n## Genuine defects\n\nFound by the checks (or while stating what they decide) and repaired in /repo, one `fix:` commit each; `findings/run.sh` shows each on the original tree.\n\n"
for l in open(os.path.join(root, "KNOWN_FINDINGS.txt")):
    if l.startswith(("fixed:", "known:")): d += "* " + l.strip() + "\n"
d += "\n" + open(os.path.join(here, "design_tail.md")).read()
open(os.path.join(root, "DESIGN.md"), "w").write(d)
