#!/usr/bin/env python3
"""seedcheck.py: does every change in seeded/ still apply to /repo's HEAD, and does each change lines of the original repository?"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(HERE, "seeded"); BASE = sys.argv[1] if len(sys.argv) > 1 else "7e2437b"
for b in sorted(os.listdir(S)):
    p = os.path.join(S, b, "patch.diff"); r = subprocess.run(["git", "-C", "/repo", "apply", "--check", p], stderr=subprocess.PIPE, text=True)
    if r.returncode: print(b, "DOES NOT APPLY"); continue
    f = None; orig = 0; n = 0
    for l in open(p, newline="", encoding="latin1"):
        if l.startswith("--- a/"): f = l[6:].strip(); bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", f], stdout=subprocess.PIPE).stdout.decode("latin1").split("\n")
        elif l.startswith("+++"): pass
        elif l.startswith("@@"): ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"): n += 1; orig += bl[ln - 1].lstrip("^").startswith(BASE[:6]); ln += 1
        elif l.startswith(" "): ln += 1
    if not orig: print(b, "changes no original line (%d removed)" % n)
