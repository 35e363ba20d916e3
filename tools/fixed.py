#!/usr/bin/env python3
"""Refreshes the "fixed" list of known_findings.json from the fix: commits in /repo."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {"detect overlay":"C02","directory_exists must":"C07","don't pad the rebuilt":"C03","don't read past section raw":"C03","bound import directory starting":"C03","strip_data_directories":"C07","ends exactly at the end of PE headers":"C06","2 GB section":"C05","self-assignment must not use deleted properties":"C07","import rebuilder must not cut":"C09","advance IAT":"C09","fill_missing":"C09","forwarded exports which have no":"C10","empty export list":"C11","every relocation block":"C12","space for resources in the order":"C14","resource_directory_entry must":"C14","length of a resource name":"C14"}
M.update(json.load(open(os.path.join(HERE,"tools/fixed_extra.json"))) if os.path.exists(os.path.join(HERE,"tools/fixed_extra.json")) else {})
p = os.path.join(HERE,"known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
out = []
for l in reversed(subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()):
    h, s = l.split(" ",1)
    if not s.startswith("fix: "): continue
    k = [v for a,v in M.items() if a in s]
    assert len(k) == 1, (s,k)
    out.append("fixed: property=%s %s %s" % (k[0], h, s[5:]))
d["fixed"] = out
json.dump(d, open(p,"w"), indent=1)
print(len(out),"fixed entries")
