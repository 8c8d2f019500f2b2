#!/usr/bin/env python3
"""Fills the `fixed` list of known_findings.json from /repo's fix: commits (run by hand after a fix)."""
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    "extended boolean": "P13", "without an exponent": "P13", "NaN as NaN": "P13",
    "record that was already serialized": "P15",
    "trailing zeros": "P13", "zero pad the year": "P13", "not valid in XML": "P14", "across character boundaries": "P14",
    "ToString and type name": "P14", "existing type names": "P15", "drain a queue": "P15", "Int32 minimum": "P13",
    "empty string fields": "P12", "distinct objects that are equal": "P15", "stream types in a payload": "P01",
    "empty fragments": "P01", "full fragment": "P02", "object id is reused": "P02", "partially received": "P04",
    "CLIXML marker": "P20", "received secure string": "P10", "hashable": "P19", "bool response": "P07",
    "creating a PSDateTime from": "P19", "reused object id": "P02", "another Runspace Pool": "P04", "surrogate pair": "P18",
    "empty text for a PSChar": "P18", "STA apartment": "P11", "runspace request pending": "P21",
    "state message cannot": "P21", "None as pipeline input": "P12", "no command origin": "P12", "no version": "P19",
    "right operand": "P19", "abs() and bool()": "P19", "list of operand types": "P19", "created from an enum": "P18",
    "document order": "P15", "extended integer": "P15", "two names": "P16", "to its class": "P16", "combination of flags": "P16",
    "unsigned integer type": "P16", "subtracted from a plain": "P19", "without any objects": "P20",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = [v for k, v in PROP.items() if k in s]
    assert len(p) == 1, (s, p)
    fixed.append("fixed: property=%s %s %s" % (p[0], h, s[5:]))
f = os.path.join(HERE, "known_findings.json")
d = json.load(open(f))
d["fixed"] = fixed
json.dump(d, open(f, "w"), indent=1)
print(len(fixed))
