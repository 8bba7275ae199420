#!/usr/bin/env python3
"""Assemble DESIGN.md: hand-written text below, bounds read from the check modules,
findings from known-findings.txt and planted bugs from seeded/*/meta.json.

Usage: /opt/venv/bin/python -B tools/gen_design.py
"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

INTRO = open(os.path.join(ROOT, "tools", "design_intro.md")).read()
NOTES = json.load(open(os.path.join(ROOT, "tools", "design_notes.json")))
OUTRO = open(os.path.join(ROOT, "tools", "design_outro.md")).read()


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    known = [l.strip() for l in open(os.path.join(ROOT, "known-findings.txt"))]
    out = [INTRO.rstrip(), "", "## Properties", ""]
    for p in props:
        pid = p["id"]
        out += ["### %s %s" % (pid, p["title"]), "", p["statement"], ""]
        note = NOTES.get(pid, {})
        path = os.path.join(ROOT, "mc", "checks", pid + ".py")
        if not os.path.exists(path):
            out += ["Not applicable: " + note.get("not_applicable", "not built"), ""]
            continue
        mod = importlib.import_module("mc.checks." + pid)
        out.append("* Enumerated (every case of every space, simplest first):")
        for s in mod.spaces():
            out.append("  * `%s`: %s." % (s.name, s.bound.rstrip(".")))
        out.append("* Oracle: " + note.get("oracle", ""))
        for a in getattr(mod, "ASSUMPTIONS", []) or []:
            out.append("* Assumption: %s." % a.rstrip("."))
        out.append("* Cost (quick, 8 cores): about %s s." % note.get("cost", "?"))
        out.append("* Beyond tests: " + note.get("why", p.get("why", "")))
        if note.get("alarms"):
            out.append("* False alarms removed: " + note["alarms"])
        fixed = [l for l in known if l.startswith("fixed: property=%s " % pid)]
        for l in fixed:
            out.append("* Defect fixed in /repo: " + l.split(" ", 2)[2] + ".")
        found = [l for l in known if l.startswith("finding: property=%s " % pid)]
        if found:
            out.append("* Known findings (%d entries): %s" % (len(found), note.get("findings", "")))
        out.append("")
    out += ["## Planted bugs", "", "All were run with `tools/try_seeded.sh` against the check of their property.", ""]
    out += ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    seeded = os.path.join(ROOT, "seeded")
    misses = NOTES.get("missed", {})
    for name in sorted(os.listdir(seeded)):
        meta = json.load(open(os.path.join(seeded, name, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (
            name, meta["property"], str(meta["needs"]).replace("|", "/").replace("\n", " "),
            misses.get(name, meta["property"])))
    out += ["", "Some were missed at first and are caught since the check was extended:", ""]
    out += ["* %s: %s" % kv for kv in NOTES.get("strengthened", {}).items()]
    out += ["", OUTRO.rstrip(), ""]
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
