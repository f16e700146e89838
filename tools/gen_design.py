#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md and the data kept beside it."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"p03-dead-negated", "p12-slab-length", "p12-length-kept", "p18-pattern-first", "p02-default-unsigned", "p04-default-kept", "p06-empty-members",
          "p26-indent-chunks", "p26-width-with-indent", "p27-json-end-without-handler", "p27-yaml-run-again"}


def main():
    s = open(V + "/tools/design.in.md").read()
    lv = json.load(open(V + "/tools/levels.json"))
    props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
    rows = ["| id | property | modules | explored and left open |", "|---|---|---|---|"]
    for k in sorted(props):
        e = lv.get(k, {"modules": "-", "note": "not claimed yet"})
        rows.append("| %s | %s | %s | %s |" % (k, props[k]["title"], e["modules"], e["note"].replace("|", "\\|")))
    s = s.replace("@LEVELS@", "\n".join(rows))
    rows = ["| change | property and check that reports it | what it needs | what it breaks |", "|---|---|---|---|"]
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m, i = json.load(open(d)), os.path.basename(os.path.dirname(d))
        rows.append("| %s%s | %s | %s | %s |" % (i, " +" if i in MISSED else "", m["property"], m["needs"], m["what_it_breaks"]))
    s = s.replace("@SEEDED@", "\n".join(rows)).replace("@MISSED@", "")
    kf = json.load(open(V + "/known_findings.json"))
    s = s.replace("@FIXED@", "\n".join("* " + x[len("fixed: property="):] for x in sorted(kf["fixed"], key=lambda x: x[16:19])))
    s = s.replace("@FINDINGS@", "\n".join("* %s" % json.dumps(x) for x in kf["findings"]) or "None.")
    open(V + "/DESIGN.md", "w").write(s)


main()
