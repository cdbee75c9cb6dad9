#!/usr/bin/env python3
"""Writes known_findings.txt: the repairs made in /repo (by subject), and the findings left alone."""
import os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = [l.rstrip("\n").split("|") for l in open(os.path.join(root, "tools", "fixed.txt")) if l.strip() and l[0] != "#"]
log = {}
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    log[s] = h
out = []
for prop, subject, what in fixed:
    out.append("fixed: property=%s %s %s" % (prop, log.pop("fix: " + subject), what))
left = [s for s in log if s.startswith("fix:")]
assert not left, left
for l in open(os.path.join(root, "tools", "known.txt")):
    if l.strip() and l[0] != "#":
        out.append(l.rstrip("\n"))
with open(os.path.join(root, "known_findings.txt"), "w") as f:
    f.write("\n".join(out) + "\n")
