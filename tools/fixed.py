#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from FIXES (subject -> property) and /repo's log."""
import subprocess, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
M = [l.rstrip("\n").split(" ", 1) for l in open(os.path.join(here, "tools/fixes.txt")) if l.strip()]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
p = os.path.join(here, "known_findings.txt")
keep = [l for l in open(p) if not l.startswith("fixed:")]
for h, s in log:
    if s.startswith("fix: "):
        m = [i for i, t in M if t == s[5:]]
        if not m: print("no property for", s)
        keep.append(f"fixed: property={m[0] if m else '?'} {h} {s[5:]}\n")
open(p, "w").writelines(keep)
