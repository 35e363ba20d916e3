#!/usr/bin/env python3
"""mutate.py FILE.cpp[:from-to] N SEED [SECONDS]: mutation testing of the checks. Makes up to N random one-token changes of one library
source (in a scratch copy under /tmp/mut, never in /repo), runs the quick cases of the properties that cover the file with
one worker and SECONDS per property, and lists the changes no check noticed in /tmp/mut/FILE.survivors.
MUT_PROPS selects other properties, MUT_ONLY=FILE tries only the changes listed in that file of survivors again."""
import sys, os, re, random, subprocess, json, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import run
M = {"pe_base": "C02 C04 C06 C05 C03 C07 C23", "pe_properties_generic": "C07 C05 C02 C04", "pe_properties": "C07 C05", "pe_section": "C04 C06 C05 C07 C29", "pe_rebuilder": "C03 C04 C27",
     "pe_imports": "C08 C09 C29", "pe_exports": "C10 C11 C29", "pe_relocations": "C12 C13 C29", "pe_resources": "C14 C15 C29", "pe_resource_manager": "C15 C14", "pe_resource_viewer": "C15 C14",
     "resource_cursor_icon_reader": "C16", "resource_cursor_icon_writer": "C16", "resource_bitmap_reader": "C17", "resource_bitmap_writer": "C17", "resource_version_info_reader": "C18 C01",
     "resource_version_info_writer": "C18", "version_info_editor": "C18", "version_info_viewer": "C18", "file_version_info": "C18 C29", "resource_message_list_reader": "C19", "message_table": "C19 C29",
     "resource_string_table_reader": "C19", "resource_data_info": "C15", "pe_tls": "C20 C29", "pe_load_config": "C21 C29", "pe_bound_import": "C22 C29", "pe_debug": "C23 C29", "pe_exception_directory": "C24 C29",
     "pe_dotnet": "C24", "pe_rich_data": "C25 C29", "pe_checksum": "C26 C27", "entropy": "C26 C27", "pe_directory": "C07", "utils": "C30 C02 C05 C04 C27", "pe_factory": "C02 C27", "pe_exception": "C02"}
def mutants(src):
    out = []; nl = "\r\n" if "\r\n" in src else "\n"; lines = src.split(nl); depth = 0; inc = False
    for n, l in enumerate(lines):
        code = l
        if inc:
            if "*/" in code: inc = False
            continue
        if code.strip().startswith("/*") and "*/" not in code: inc = True; continue
        m = re.search(r"//", code); end = m.start() if m else len(code); c = code[:end]
        if not c.strip() or c.lstrip().startswith("#") or c.lstrip().startswith("template") or "static_assert" in c: continue
        if not c.startswith((" ", "\t")): continue
        masked = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])\'', lambda x: "@" * len(x.group()), c)
        masked2 = re.sub(r"(static_cast|reinterpret_cast|vector|map|pair|set|list|multimap|template|numeric_limits|max|min|auto_ptr|istreambuf_iterator|ostreambuf_iterator|const_cast|[a-z_]+_from_[a-z]+)<[^;()]*?>+", lambda x: "@" * len(x.group()), masked)
        def add(a, b, new, op): out.append((n, op, code[:a] + new + code[b:]))
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])", masked2):
            o = m.group(); r = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[o]
            if o in "<>" and (m.start() == 0 or masked2[m.start() - 1] == "-"): continue
            add(m.start(), m.end(), r, "rel")
        for m in re.finditer(r"&&|\|\|", masked): add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "logic")
        for m in re.finditer(r"(?<= )([+\-|&])(?= )", masked): add(m.start(), m.end(), {"+": "-", "-": "+", "|": "&", "&": "|"}[m.group()], "arith")
        for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])", masked): add(m.start(), m.end(), str(int(m.group(), 0) + 1), "const+1"); 
        for m in re.finditer(r"(?<![\w.])(0x[0-9A-Fa-f]+|\d+)(?![\w.])", masked):
            if int(m.group(), 0): add(m.start(), m.end(), str(int(m.group(), 0) - 1), "const-1")
        for m in re.finditer(r"\b(true|false)\b", masked): add(m.start(), m.end(), "false" if m.group() == "true" else "true", "bool")
        m = re.match(r"(\s*(?:else )?if\()(.*)\)\s*$", c)
        if m and masked.count("(") == masked.count(")"): add(m.start(2), m.end(2), "false", "if0"); add(m.start(2), m.end(2), "!(" + m.group(2) + ")", "ifnot")
        if re.match(r"\s*[\w.\->()\[\]*&]+(\(|\s*[-+|&]?=\s|\+\+|--).*;\s*$", c) and not re.match(r"\s*(return|throw|delete|typedef|using|case|const|std::\w+\s+\w|uint\d+_t|int\d+_t|bool|char|for|if|while|else)\b", c) and not re.match(r"\s*[\w:<>]+[&*]?\s+[\w]+(\(|\s*=|;)", c): add(0, end, re.match(r"\s*", c).group() + ";", "delete")
        m = re.match(r"(\s*)(throw pe_exception.*;|break;|continue;)\s*$", c)
        if m: add(m.start(2), m.end(2), ";", "delete")
        for m in re.finditer(r"\bsizeof\(([\w:]+( [\w:]+)*)\)", masked): add(m.start(), m.end(), "(" + m.group() + " + 1)", "sizeof+1")
        for m in re.finditer(r"\b(uint64_t|uint32_t|uint16_t|size_t|int64_t|BaseSize|std::streamoff|int)\b(?![*>]*\()", c) if not re.search(r"\b(sizeof|const_iterator|typedef|operator)\b", c) else []:
            if not re.match(r"(\s*(const )?[\w:]+ [\w]+( =|\(|;))|.*static_cast<[\w:]+>|.*for\(", c) or c.rstrip().endswith(")"): continue
            for to in {"uint64_t": ["uint32_t", "int64_t"], "uint32_t": ["uint16_t", "int32_t", "uint8_t"], "uint16_t": ["uint8_t", "int16_t"], "size_t": ["uint32_t", "uint16_t"], "int64_t": ["int32_t", "uint64_t"], "std::streamoff": ["int16_t"], "int": ["signed char"]}.get(m.group(1), []): add(m.start(), m.end(), to, "narrow")
        for m in re.finditer(r"static_cast<(uint64_t|uint32_t|uint16_t)>", c):
            for to in {"uint64_t": ["uint32_t"], "uint32_t": ["uint16_t", "uint8_t"], "uint16_t": ["uint8_t"]}[m.group(1)]: add(m.start(1), m.end(1), to, "narrow")
        for m in re.finditer(r"std::(max|min)\b", masked): add(m.start(), m.end(), "std::" + ("min" if m.group(1) == "max" else "max"), "minmax")
        for m in re.finditer(r"\balign_(up|down)\(", masked): add(m.start(), m.end(), "align_%s(" % ("down" if m.group(1) == "up" else "up"), "align")
    return lines, nl, out
def main():
    a = sys.argv[1]; f, _, rng = a.partition(":"); N = int(sys.argv[2]); seed = int(sys.argv[3]); secs = sys.argv[4] if len(sys.argv) > 4 else "15"
    base = f[:-4]; props = os.environ.get("MUT_PROPS", M[base]).split()
    W = "/tmp/mut/" + base; shutil.rmtree(W, ignore_errors=True); os.makedirs(W); run.BUILD = "/tmp/mut/build"
    bins = run.build(props); ld = os.path.dirname(bins[props[0]])
    objs = {}
    hobj = [x for x in os.listdir(ld) if x.startswith("h-") and x.endswith(".o")]; lobj = [x for x in os.listdir(ld) if x.endswith(".o") and not x.startswith(("h-", "p-"))]
    src = open(os.path.join(run.LIB, f), newline="", encoding="latin1").read(); lines, nl, ms = mutants(src)
    if rng: lo, hi = map(int, rng.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    if os.environ.get("MUT_ONLY"): t = open(os.environ["MUT_ONLY"]).read(); again = set(re.findall(r"%s:(\d+) \[(.*)\]\n.*\n  \+ (.*)\n" % re.escape(f), t)); ms = [m for m in ms if (str(m[0] + 1), m[1], m[2].strip()) in again]; base_out = "-again"
    else: base_out = ""
    if os.environ.get("MUT_OPS"): ms = [m for m in ms if m[1] in os.environ["MUT_OPS"].split()]
    seen = set(); ms = [m for m in ms if not (m[0], m[2]) in seen and not seen.add((m[0], m[2]))]
    random.Random(seed).shuffle(ms); total = len(ms); ms = ms[:N]
    def one(k):
        n, op, new = ms[k]; d = os.path.join(W, str(k)); os.makedirs(d)
        try:
            L = list(lines); L[n] = new; mf = os.path.join(d, f); open(mf, "w", newline="", encoding="latin1").write(nl.join(L)); o = os.path.join(d, "m.o")
            if subprocess.run(run.LIBFLAGS + ["-I", run.LIB, "-c", mf, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode: return (k, "invalid")
            for p in props:
                po = os.path.join(ld, "p-" + os.path.basename(bins[p])[:-4] + ".o"); po = os.path.join(ld, "p-%s.o" % os.path.basename(bins[p])[:-4])
                b = os.path.join(d, p); r = subprocess.run(["g++"] + run.SAN + [po, o] + [os.path.join(ld, x) for x in hobj + lobj if x != base + ".o"] + ["-o", b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode: return (k, "nolink " + r.stdout[-300:])
                cases = subprocess.run([b], stdout=subprocess.PIPE, text=True).stdout.split()[1]; kf = os.path.join(d, "known"); open(kf, "w").close(); out = os.path.join(d, "o.json")
                try: subprocess.run([b, "run", "--seed", "1", "--cases", cases, "--time", secs, "--jobs", "1", "--tmp", d, "--out", out, "--known", kf, "--shrink", "0.01"], cwd=d, timeout=float(secs) + 60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                except subprocess.TimeoutExpired: return (k, "killed %s timeout" % p)
                try: r = json.load(open(out), strict=False)
                except Exception: return (k, "killed %s noresult" % p)
                if r["failed"]: return (k, "killed %s %s" % (p, r["sig"]))
                os.remove(b)
            return (k, "SURVIVED")
        finally: shutil.rmtree(d, ignore_errors=True)
    c = {"killed": 0, "SURVIVED": 0, "invalid": 0, "nolink": 0}
    with open("/tmp/mut/%s%s.survivors" % (base, base_out), "w" if base_out else "a") as sf, ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "8"))) as ex:
        for k, r in ex.map(one, range(len(ms))):
            c[r.split()[0]] += 1
            if r == "SURVIVED": n, op, new = ms[k]; sf.write("%s:%d [%s]\n  - %s\n  + %s\n" % (f, n + 1, op, lines[n].strip(), new.strip())); sf.flush()
    print(f, "possible", total, c, flush=True)
    shutil.rmtree(W, ignore_errors=True)
main()
