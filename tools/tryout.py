#!/usr/bin/env python3
"""tryout.py FILE [SECONDS]: tries many hand-written changes of the library at once. FILE defines T = [(properties, file, old, new), ...]; each is
applied to a scratch copy of that source (never in /repo) and linked with the checks of its properties; prints what noticed it."""
import sys, os, subprocess, json, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import run
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); T = ns["T"]; secs = sys.argv[2] if len(sys.argv) > 2 else "40"; W = "/tmp/tryout"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W); run.BUILD = "/tmp/tryout-build"
    ps = sorted({p for t in T for p in t[0].split()}); bins = run.build(ps); ld = os.path.dirname(bins[ps[0]])
    hobj = [x for x in os.listdir(ld) if x.startswith("h-") and x.endswith(".o")]; lobj = [x for x in os.listdir(ld) if x.endswith(".o") and not x.startswith(("h-", "p-"))]
    def one(k):
        props, f, a, b = T[k][:4]; d = os.path.join(W, str(k)); os.makedirs(d); name = "%2d %s %s" % (k, f, (b.strip() or "(removed)").splitlines()[0].strip()[:70])
        src = open(os.path.join(run.LIB, f), newline="", encoding="latin1").read(); nl = "\r\n" if "\r\n" in src else "\n"; a = a.replace("\n", nl); b = b.replace("\n", nl); n = src.count(a)
        if n != 1: return name + ": text found %d times" % n
        if f.endswith(".h"): return name + ": header not supported"
        mf = os.path.join(d, f); open(mf, "w", newline="", encoding="latin1").write(src.replace(a, b)); o = os.path.join(d, "m.o"); r = subprocess.run(run.LIBFLAGS + ["-I", run.LIB, "-c", mf, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return name + ": does not compile " + [l for l in r.stdout.splitlines() if "error" in l][0]
        res = []
        for p in props.split():
            po = os.path.join(ld, "p-%s.o" % os.path.basename(bins[p])[:-4]); bn = os.path.join(d, p); r = subprocess.run(["g++"] + run.SAN + [po, o] + [os.path.join(ld, x) for x in hobj + lobj if x != f[:-4] + ".o"] + ["-o", bn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: return name + ": link " + r.stdout[-300:]
            cases = subprocess.run([bn], stdout=subprocess.PIPE, text=True).stdout.split()[1]; kf = os.path.join(d, "known"); open(kf, "w").close(); out = os.path.join(d, "o.json")
            try: subprocess.run([bn, "run", "--seed", "1", "--cases", cases, "--time", secs, "--jobs", "1", "--tmp", d, "--out", out, "--known", kf, "--shrink", "0.01"], cwd=d, timeout=float(secs) + 60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL); r = json.load(open(out), strict=False); res.append("%s %s" % (p, "caught " + r["sig"] if r["failed"] else "MISSED"))
            except Exception as e: res.append("%s caught? %s" % (p, type(e).__name__))
        shutil.rmtree(d, ignore_errors=True); return name + ": " + ", ".join(res)
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "6"))) as ex:
        for l in ex.map(one, range(len(T))): print(l); sys.stdout.flush()
main()
