#!/usr/bin/env python3
"""Runner: run.py check <ID> | setup | replay <file> | one <ID> <seed> <index> | build <ID>
Builds the library from /repo's working tree with sanitizers, links the property's harness, runs it."""
import sys, os, json, hashlib, subprocess, shutil, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(REPO, "src", "pe_lib")
HAR = os.path.join(HERE, "harness")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, "build"))
SAN = ["-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero,vla-bound", "-fno-sanitize-recover=all",
       "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"]
LIBFLAGS = ["g++", "-std=c++11", "-O1", "-g1", "-w", "-fstrict-aliasing", "-fsanitize-coverage=trace-pc"] + SAN
HARFLAGS = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-I", LIB, "-I", HAR] + SAN
COVFLAGS = ["g++", "-std=c++17", "-O2", "-w"]
JOBS = 8

def die(msg):
    sys.stderr.write("ERROR: %s\n" % msg)
    sys.exit(2)

def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\1")
    return h.hexdigest()[:20]

def compile_all(jobs):
    def one(j):
        cmd, out = j
        if os.path.exists(out):
            return None
        tmp = out + ".%d.tmp" % os.getpid()
        p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return "%s\n%s" % (" ".join(cmd), p.stdout[-4000:])
        os.replace(tmp, out)
        return None
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        die("build failed:\n" + errs[0])

def build(props):
    libsrc = sorted(glob.glob(os.path.join(LIB, "*.cpp")))
    libhdr = sorted(glob.glob(os.path.join(LIB, "*.h")))
    if not libsrc:
        die("no library sources in " + LIB)
    lh = digest(libsrc + libhdr, " ".join(LIBFLAGS))
    hh = digest(glob.glob(os.path.join(HAR, "*.h")) + glob.glob(os.path.join(HAR, "*.cpp")), " ".join(HARFLAGS + COVFLAGS) + lh)
    os.makedirs(BUILD, exist_ok=True)
    ld = os.path.join(BUILD, "lib-" + lh)
    os.makedirs(ld, exist_ok=True)
    objs, jobs = [], []
    for s in libsrc:
        o = os.path.join(ld, os.path.basename(s)[:-4] + ".o")
        objs.append(o)
        jobs.append((LIBFLAGS + ["-c", s], o))
    for s in sorted(glob.glob(os.path.join(HAR, "*.cpp"))):
        with open(s, "rb") as fh:
            sh = hashlib.sha256(fh.read() + hh.encode()).hexdigest()[:12]
        o = os.path.join(ld, "h-%s-%s.o" % (os.path.basename(s)[:-4], sh))
        objs.append(o)
        jobs.append(((COVFLAGS if s.endswith("/cov.cpp") else HARFLAGS) + ["-c", s], o))
    bins = {}
    links = []
    for p in props:
        s = os.path.join(HAR, "props", p + ".cpp")
        with open(s, "rb") as fh:
            sh = hashlib.sha256(fh.read() + hh.encode()).hexdigest()[:12]
        o = os.path.join(ld, "p-%s-%s.o" % (p, sh))
        b = os.path.join(ld, "%s-%s.bin" % (p, sh))
        bins[p] = b
        if not os.path.exists(b):
            jobs.append((HARFLAGS + ["-c", s], o))
            links.append((["g++"] + SAN + [o] + objs, b))
    compile_all(jobs)
    compile_all(links)
    os.utime(ld)
    olds = sorted(glob.glob(os.path.join(BUILD, "lib-*")), key=os.path.getmtime)[:-4]
    for d in olds:
        if d != ld:
            shutil.rmtree(d, ignore_errors=True)
    return bins

def known(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid]

def check(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    b = build([pid])[pid]
    info = subprocess.run([b], stdout=subprocess.PIPE, text=True).stdout.split()
    cases = int(info[1]) * 2 if tier == "quick" else int(info[2])
    cases = int(os.environ.get("VP_CASES", cases))
    budget = 240 if tier == "quick" else 640
    budget = float(os.environ.get("VP_TIME", budget))
    kn = known(pid)
    tmp = tempfile.mkdtemp(prefix="pbt-")
    try:
        kf = os.path.join(tmp, "known"); open(kf, "w").write("".join(k["sig"] + "\n" for k in kn))
        out = os.path.join(tmp, "out.json")
        p = subprocess.run([b, "run", "--seed", str(seed), "--cases", str(cases), "--time", str(budget), "--jobs", str(JOBS),
                            "--tmp", tmp, "--out", out, "--known", kf], cwd=tmp)
        if not os.path.exists(out):
            die("harness gave no result (exit %d)" % p.returncode)
        r = json.load(open(out), strict=False)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viol = r["failed"] and r.get("reproduced", 0) == 3
    cov = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"],
           "samples": r["samples"], "classes": r["labels"], "discarded": r["discarded"], "planned_cases": r["planned"],
           "compiler": "g++ -fsanitize=address,bounds"}
    if r["corpus"]:
        cov["coverage_corpus_entries"] = r["corpus"]; cov["coverage_edges_per_worker_max"] = r["edges"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["x86-64 Linux, g++ " + "with AddressSanitizer; allocations above the harness limit throw std::bad_alloc"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    for k in kn:
        if k["sig"] in r["known"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if r["failed"]:
        rd = os.path.join(HERE, "build", "replays")
        os.makedirs(rd, exist_ok=True)
        rf = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha256(json.dumps(r["choices"]).encode()).hexdigest()[:12]))
        json.dump({"property": pid, "seed": seed, "tier": tier, "case": r["case"], "signature": r["sig"], "message": r["msg"],
                   "description": r["desc"], "choices": r["choices"], "replay_cmd": "python3 run.py replay " + rf}, open(rf, "w"), indent=1)
        print("case %d (choices %d -> %d), reproduced %d/3\nsignature: %s\n%s\n%s" % (r["case"], r["orig_len"], len(r["choices"]), r["reproduced"], r["sig"], r["msg"], r["desc"]))
        if viol:
            print("VIOLATION property=%s replay=%s" % (pid, rf))
            rc = 1
        else:
            print("INCONCLUSIVE: the failure did not reproduce three times out of three")
            ev["coverage"]["not_reproduced"] = r["sig"]
    elif r["internal_error"] and r["evaluations"] < r["planned"] // 2:
        die("workers died outside the code under test")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s" % (pid, tier, seed, r["evaluations"], r["distinct_nontrivial"], r["discarded"], time.time() - t0))
    if "-v" in sys.argv:
        for k, v in sorted(r["labels"].items()):
            print("   %-40s %d" % (k, v))
    return rc

def all_props():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(HAR, "props", "*.cpp")))

def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "check":
        sys.exit(check(a[1]))
    if a[0] in ("setup", "build"):
        build(a[1:] or all_props()); return
    if a[0] == "one":
        b = build([a[1]])[a[1]]
        sys.exit(subprocess.run([b, "one", a[2], a[3]]).returncode)
    if a[0] == "replay":
        d = json.load(open(a[1]))
        b = build([d["property"]])[d["property"]]
        with tempfile.NamedTemporaryFile("w", suffix=".txt") as f:
            f.write("\n".join(map(str, d["choices"])) + "\n"); f.flush()
            sys.exit(subprocess.run([b, "replay", f.name]).returncode)
    die("unknown command " + a[0])
if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback; traceback.print_exc()
        sys.exit(2)
