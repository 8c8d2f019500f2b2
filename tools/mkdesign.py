#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, the checks, known_findings.json, seeded/ and design/*.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
if not sys.executable.startswith("/opt/venv"):
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", os.path.abspath(__file__)])
from mc import env  # noqa

env.prepare("/repo")


def load(n, default):
    p = os.path.join(HERE, "design", n)
    return json.load(open(p)) if os.path.exists(p) else default


cost = load("cost.json", {})
out = [open(os.path.join(HERE, "design/head.md")).read()]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("checks." + p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("Enumerated and compared: %s.\n" % m.RULE.rstrip("."))
    out.append("Why tests cannot settle it: %s\n" % p["why_tests_cant"])
    for s in m.SCENARIOS:
        out.append("- `%s`: %s" % (s.name, s.bound))
    out.append("")
    if m.ASSUMPTIONS:
        out.append("Assumptions: %s.\n" % "; ".join(a.rstrip(".") for a in m.ASSUMPTIONS))
    c = cost.get(p["id"])
    if c:
        out.append("Cost: " + c + "\n")
tail = open(os.path.join(HERE, "design/tail.md")).read()
fixed = json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]
tail = tail.replace("@FIXED@", "\n".join("- " + f[len("fixed: property="):] for f in fixed))
notes = load("seeded_notes.json", {})
caught = load("caught.json", {})
rows = ["| bug | property | needs | result |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    r = caught.get(i, "?")
    if i in notes:
        r += "; " + notes[i]
    rows.append("| %s | %s | %s | %s |" % (i, meta["property"], meta["needs"].replace("|", "/"), r))
tail = tail.replace("@SEEDED@", "\n".join(rows)).replace("@REVERTS@", load("reverts.json", {"text": "see below"})["text"])
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n" + tail)
