#!/usr/bin/env python3
"""Writes expect.json: the operand classes every run of a check must reach (seen at least 50 times by every evidence file given)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = {}
for d in sys.argv[1:]:
    for f in glob.glob(os.path.join(d, "*.json")):
        e = json.load(open(f))
        cl = {k for k, v in e["coverage"].get("classes", {}).items() if v[0] >= 50}
        if cl:
            want[e["property"]] = want.get(e["property"], cl) & cl
with open(os.path.join(V, "expect.json"), "w") as f:
    json.dump({k: sorted(v) for k, v in sorted(want.items())}, f, indent=1)
    f.write("\n")
