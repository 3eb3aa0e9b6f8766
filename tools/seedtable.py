#!/usr/bin/env python3
"""Prints the planted bugs as a table for DESIGN.md (id, property whose check catches it, what it needs)."""
import glob, json, os
ALSO = {"c21-must-int": "C20", "c29-goid-buffer": "C19", "c19-leak-discarded": "C31"}
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| planted bug | caught by | what it needs to show |")
print("|---|---|---|")
for m in sorted(glob.glob(os.path.join(root, "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    by = d["property"] + (", " + ALSO[i] if i in ALSO else "")
    n = " ".join(d["needs"].split())
    if len(n) > 150:
        n = n[:147].rsplit(" ", 1)[0] + " ..."
    print("| %s | %s | %s |" % (i, by, n.replace("|", "/")))
