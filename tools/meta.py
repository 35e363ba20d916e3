#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (properties without a harness are left out)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/pe_lib/"
SRC = "Property-based testing: "
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))
exec(open(os.path.join(HERE, "tools", "properties.py")).read())
P.sort(key=lambda p: p["id"])
have = [p for p in P if os.path.exists(os.path.join(HERE, "harness/props/%s.cpp" % p["id"]))]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in have:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": [L + x for x in p["files"]], "mechanism": [{"name": n, "where": L + w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
        if p["state"]: a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [
    {"property": p["id"], "quick_cmd": "python3 run.py check " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p["id"], "evidence_file": "evidence/%s.json" % p["id"],
     "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in have],
    "not_applicable": [],
    "notes": "One harness per property in harness/props, built with AddressSanitizer against /repo's working tree; every check is generated-input search against a reference model. See DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(have), "properties")
import re, glob
t = open(os.path.join(HERE, "tools/DESIGN.md.in")).read()
o = ""
for p in have:
    src = open(os.path.join(HERE, "harness/props/%s.cpp" % p["id"])).read()
    r = re.search(r'prop_info = \{"C\d+",\s*"((?:[^"\\]|\\.)*)"', src); r = r.group(1) if r else ""
    n = re.search(r'run,\s*(\d+),\s*(\d+),\s*(\d+)', src)
    o += "### %s %s\n\n%s\n\n* Quantifier: %s.\n* Decided by: %s.\n* Cases: %s\n* Cost: %s quick cases, %s thorough cases%s (time caps 240 s and 640 s).\n* Assurance: %s\n* Why tests cannot: %s\n\n" % (p["id"], p["title"], p["statement"], p["quant"], p["technique"], r, int(n.group(1)) * 2, n.group(2), ", %s%% coverage-guided" % n.group(3) if n.group(3) != "0" else "", p["note"], p["why"])
t = t.replace("PROPERTIES\n", o)
f = os.path.join(HERE, "tools/caught.json")
caught = json.load(open(f)) if os.path.exists(f) else {}
b = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); b += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], caught.get(i, "not run"))
t = t.replace("SEEDED\n", b)
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
