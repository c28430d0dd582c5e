#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted changes\n"
# first missed, then caught after what is described here
MISSED = {
    "tuner-second-run": "P24 got a second tuning run on the same object",
    "prefix-stops-at-nul": "P28 got zero bytes in its alphabet",
    "list-assigned-in-place": "the array model assigns lists to views and looks at the original",
    "scalar-in-value-type": "P16 got its configuration `fractions`",
    "stack-of-nothing": "P15 got the capacity 0",
    "timestamp-in-local-time": "P21 got its configuration `time zones`",
    "tunings-whole-seconds": "P23 got sampling times that are no whole seconds",
}
extra = os.path.join(root, "tools", "missed.json")
if os.path.exists(extra): MISSED.update(json.load(open(extra)))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    how = MISSED.get(i)
    rows.append((m["property"], i, m["needs"].replace("|", "/"), "missed at first: " + how if how and not how.startswith("!") else how[1:] if how else "caught as it was"))
rows.sort()
text = MARK + """
Each was written from the text of its property and the code, is validated in a scratch run (builds, passes the tests,
its demonstration fails with it and passes without it) and lies in `seeded/<id>`; the check named catches it.

| check | change | needs | |
|---|---|---|---|
""" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = root + "/DESIGN.md"
d = open(p).read()
d = d[:d.index(MARK)] if MARK in d else d.rstrip() + "\n\n"
open(p, "w").write(d + text)
