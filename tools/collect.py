#!/usr/bin/env python3
"""collect.py: records in design/cost.json what the evidence files say, and in design/caught.json the output of `seed.py --run` on stdin."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if "--cost" in sys.argv:
    c = {}
    for f in sorted(glob.glob(HERE + "/evidence/*.json")):
        d = json.load(open(f))
        if d["tier"] != "quick":
            continue
        v = d["coverage"]
        c[d["property"]] = "%d traces, %d states, %d transitions, %d s (quick)." % (
            v["traces_validated_against_impl"], v["states"], v["transitions"], d["wall_s"])
    json.dump(c, open(HERE + "/design/cost.json", "w"), indent=1)
else:
    f = HERE + "/design/caught.json"
    c = json.load(open(f)) if os.path.exists(f) else {}
    for line in sys.stdin:
        m = re.match(r"(\S+)\s+(P\d\d) exit=(\d+) (\S+)(?: (\S+)?:)?", line)
        if m:
            sc = re.match(r".*?exit=\d+ ([^:]*):", line)
            c[m[1]] = "caught by %s %s" % (m[2], sc[1] if sc else "") if m[3] == "1" else "missed"
    json.dump(c, open(f, "w"), indent=1, sort_keys=True)
