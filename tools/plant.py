#!/usr/bin/env python3
"""plant.py ID...: makes /verif/seeded/ID from tools/bugs/ID.py (edits, demo), verifies it on /repo and runs the check on it.
plant.py --check ID...: only runs the property's check against existing seeded/ID. /repo is restored afterwards."""
import sys, os, json, subprocess, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = '''#!/bin/bash
# Run in the repository after its build: exits 0 if the property holds for the demonstrated case.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -g %s -I src/pe_lib "$d/demo.cpp" lib/Debug/libpe_lib.a -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def restore(): sh("git -C /repo checkout -- ."); 
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]; only = "--check" in sys.argv
    if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
    res = {}
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        try:
            if not only:
                ns = {}; exec(open(os.path.join(HERE, "tools/bugs", i + ".py")).read(), ns); os.makedirs(d, exist_ok=True)
                for f, a, b in ns["edits"]:
                    p = os.path.join(R, "src/pe_lib", f); s = open(p, newline="").read(); nl = "\r\n" if "\r\n" in s else "\n"; a = a.replace("\n", nl); b = b.replace("\n", nl)
                    assert s.count(a) == 1, (i, f, s.count(a)); open(p, "w", newline="").write(s.replace(a, b))
                with open(d + "/patch.diff", "w", newline="") as fh: fh.write(subprocess.check_output(["git", "-C", R, "diff"]).decode("utf8", "surrogateescape"))
                open(d + "/demo.cpp", "w").write(ns["demo"]); open(d + "/demo.sh", "w").write(DEMO % ns.get("flags", "-fsanitize=address")); os.chmod(d + "/demo.sh", 0o755)
                json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                restore(); assert sh("bash /opt/vp/build.sh").returncode == 0
                r = sh("bash %s/demo.sh" % d, cwd=R); 
                if r.returncode: print(i, "DEMO FAILS ON UNCHANGED TREE", r.returncode, r.stdout[-1500:]); continue
            r = sh("git -C /repo apply --check %s/patch.diff && git -C /repo apply %s/patch.diff" % (d, d))
            if r.returncode: print(i, "does not apply", r.stdout); continue
            prop = json.load(open(d + "/meta.json"))["property"]
            if not only:
                r = sh("bash /opt/vp/test.sh /tmp/plant.json"); last = r.stdout.strip().splitlines()[-1]
                if "1053 passed, 0 failed" not in last: print(i, "TESTS:", last, r.stdout[-800:]); continue
                r = sh("bash %s/demo.sh" % d, cwd=R)
                if r.returncode == 0 or r.returncode == 2: print(i, "DEMO PASSES WITH THE BUG" if not r.returncode else "demo does not build", r.stdout[-500:]); continue
            r = sh("python3 run.py check " + prop, cwd=HERE); v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("signature")]
            cf = os.path.join(HERE, "tools/caught.json"); c = json.load(open(cf)) if os.path.exists(cf) else {}; sig = [l for l in v if l.startswith("signature")]; c[i] = "%s (%s)" % (prop, sig[0].split(": ", 1)[1] if sig else "") if r.returncode == 1 and v else "MISSED by " + prop; json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
            print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, " | ".join(v), r.stdout.strip().splitlines()[-1]); sys.stdout.flush()
        finally: restore()
    sh("bash /opt/vp/build.sh")
main()
