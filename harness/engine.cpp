#include "engine.h"
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <new>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <csignal>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>

extern unsigned char pbt_cov_map[1 << 16];
extern bool pbt_cov_on;
void pbt_cov_reset();

static pbt::u64 g_alloc_limit = 256ull << 20;
// live allocations: counted always, tracked by address only while a leak is being located
static pbt::u64 g_refused = 0; static long g_live = 0; static void** g_track = nullptr; static size_t g_ntrack = 0; static const size_t MAXTRACK = 1 << 16;
static void* alloc_(std::size_t n) { if(n > g_alloc_limit) { if(n > g_refused) g_refused = n; throw std::bad_alloc(); } void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); ++g_live; if(g_track && g_ntrack < MAXTRACK) g_track[g_ntrack++] = p; return p; }
static void free_(void* p) { if(!p) return; --g_live; if(g_track) for(size_t i = g_ntrack; i-- > 0;) if(g_track[i] == p) { g_track[i] = g_track[--g_ntrack]; break; } free(p); }
void* operator new(std::size_t n) { return alloc_(n); }
void* operator new[](std::size_t n) { return alloc_(n); }
void operator delete(void* p) noexcept { free_(p); }
void operator delete[](void* p) noexcept { free_(p); }
void operator delete(void* p, std::size_t) noexcept { free_(p); }
void operator delete[](void* p, std::size_t) noexcept { free_(p); }
extern "C" size_t __asan_get_alloc_stack(void* addr, void** trace, size_t size, int* thread_id);
extern "C" void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out_buf, size_t out_buf_size);

namespace pbt
{
void set_alloc_limit(u64 b) { g_alloc_limit = b; }
u64 take_refused() { u64 r = g_refused; g_refused = 0; return r; }
u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull + b); r.next(); return r.next() ^ (b << 1); }
u64 fnv(const void* p, size_t n, u64 h) { const u8* c = (const u8*)p; for(size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h; }
std::string hx(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
std::string hex(const std::string& s, size_t max)
{
    std::string r;
    for(size_t i = 0; i < s.size() && i < max; ++i) { unsigned char c = s[i]; if(c >= 32 && c < 127 && c != '"' && c != '\\') r += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    if(s.size() > max) r += "...";
    return r;
}
[[noreturn]] void fail(const std::string& sig, const std::string& msg) { throw Failure{sig, msg}; }

static const size_t MAXC = 1 << 20;
enum { ST_IDLE = 0, ST_RUNNING, ST_PASS, ST_FAIL, ST_DISCARD, ST_HANG, ST_TOOBIG };
struct Shm
{
    volatile u64 case_idx; volatile u64 done; volatile u64 discards; volatile u64 nontriv; volatile u64 nchoices; volatile u32 status; volatile u32 finished;
    char sig[512]; char msg[8192]; char desc[16384];
    u64 choices[MAXC];
};

struct Gen::Impl
{
    Shm* shm; Rng rng; const std::vector<u64>* replay = nullptr; size_t pos = 0; bool random_tail = true;
    std::map<std::string, u64>* labels = nullptr; std::set<std::string> seen;
    std::string desc;
};

u64 Gen::raw(u64 n)
{
    Impl& m = *impl; u64 v;
    if(m.replay && m.pos < m.replay->size()) { v = (*m.replay)[m.pos]; if(n && v >= n) v %= n; }
    else if(m.replay && !m.random_tail) v = 0;
    else { v = m.rng.next(); if(n) v %= n; }
    ++m.pos;
    u64 k = m.shm->nchoices;
    if(k >= MAXC) throw Discard();
    m.shm->choices[k] = v; m.shm->nchoices = k + 1;
    return v;
}
u64 Gen::edge(u64 lo, u64 hi)
{
    if(lo >= hi) return lo;
    u64 span = hi - lo;
    switch(below(6))
    {
    case 0: return lo + below(std::min<u64>(span, 8) + 1);
    case 1: return range(lo, hi);
    case 2: return hi - below(std::min<u64>(span, 8) + 1);
    case 3: { // around a power of two
        u64 p = 1ull << below(64); u64 d = below(5); u64 v = p + d - 2; if(v < lo || v > hi) v = lo + (v - lo) % (span == ~0ull ? span : span + 1); return v; }
    case 4: { u64 bits = below(64); u64 m = bits == 63 ? ~0ull : ((1ull << (bits + 1)) - 1); u64 v = raw(0) & m; return lo + (span == ~0ull ? v : v % (span + 1)); }
    default: return lo + below(std::min<u64>(span, 300) + 1);
    }
}
u64 Gen::small(u64 max)
{
    if(!max) return 0;
    switch(below(8))
    {
    case 0: case 1: case 2: return below(std::min<u64>(max, 3) + 1);
    case 3: case 4: case 5: return below(std::min<u64>(max, 8) + 1);
    case 6: return below(std::min<u64>(max, 40) + 1);
    default: return below(max + 1);
    }
}
unsigned Gen::weighted(std::initializer_list<unsigned> w)
{
    u64 t = 0; for(unsigned x : w) t += x;
    u64 v = below(t); unsigned i = 0;
    for(unsigned x : w) { if(v < x) return i; v -= x; ++i; }
    return 0;
}
std::string Gen::bytes(size_t n)
{
    std::string s(n, '\0'); if(!n) return s;
    u64 k = raw(0) & 0xffffffffull;
    if(k == 0) { for(size_t i = 0; i < n; ++i) s[i] = (char)(i + 1); return s; }
    Rng r(k); unsigned mode = k & 3;
    u64 w = 0;
    for(size_t i = 0; i < n; ++i) { if(!(i & 7)) w = r.next(); u8 b = (u8)(w >> ((i & 7) * 8)); s[i] = mode == 0 && (b & 0x60) == 0 ? 0 : (char)b; }
    return s;
}
std::string Gen::name(size_t a, size_t b)
{
    static const char al[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@?$.";
    size_t n = (size_t)range(a, b); std::string s(n, 'a'); u64 k = n ? raw(0) : 0; Rng r(k);
    if(k) for(auto& c : s) c = al[r.next() % (sizeof al - 1)];
    return s;
}
std::string Gen::text(size_t a, size_t b)
{
    size_t n = (size_t)range(a, b); std::string s(n, 'a'); u64 k = n ? raw(0) : 0; Rng r(k);
    if(k) for(auto& c : s) c = (char)(32 + r.next() % 95);
    return s;
}
void Gen::label(const std::string& l) { if(impl->labels && impl->seen.insert(l).second) ++(*impl->labels)[l]; }
void Gen::note(const std::string& s)
{
    Impl& m = *impl; if(m.desc.size() + s.size() > sizeof(m.shm->desc) - 64) { return; }
    m.desc += s; m.desc += "\n";
    memcpy(m.shm->desc, m.desc.c_str(), m.desc.size() + 1);
}

static void copystr(char* d, size_t n, const std::string& s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }

static Shm* g_cur = nullptr;
static void on_cpu(int) { if(g_cur) { g_cur->status = ST_HANG; copystr(g_cur->sig, sizeof g_cur->sig, "hang"); copystr(g_cur->msg, sizeof g_cur->msg, "case did not terminate within its CPU budget"); } _exit(77); }
static void arm_cpu(unsigned s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); }

// runs one case; result in shm
static void run_case(Shm* shm, u64 rngseed, const std::vector<u64>* replay, bool random_tail, std::map<std::string, u64>* labels, bool& nontriv)
{
    Gen g; Gen::Impl m; m.shm = shm; m.rng = Rng(rngseed); m.replay = replay; m.random_tail = random_tail; m.labels = labels; g.impl = &m;
    shm->nchoices = 0; shm->status = ST_RUNNING; shm->sig[0] = shm->msg[0] = shm->desc[0] = 0; g_cur = shm;
    arm_cpu(prop_info.case_cpu_s ? prop_info.case_cpu_s : 30);
    try { prop_info.run(g); shm->status = ST_PASS; }
    catch(const Discard&) { shm->status = ST_DISCARD; }
    catch(const Failure& f) { copystr(shm->sig, sizeof shm->sig, f.sig); copystr(shm->msg, sizeof shm->msg, f.msg); shm->status = ST_FAIL; }
    catch(const std::exception& e) { copystr(shm->sig, sizeof shm->sig, "unexpected-exception"); copystr(shm->msg, sizeof shm->msg, std::string("unexpected exception escaped: ") + e.what()); shm->status = ST_FAIL; }
    catch(...) { copystr(shm->sig, sizeof shm->sig, "unexpected-exception"); copystr(shm->msg, sizeof shm->msg, "unknown exception escaped"); shm->status = ST_FAIL; }
    nontriv = g.nontrivial_;
}
// runs the case in shm again: a case which keeps more memory on every run leaks
static void check_leak(Shm* shm)
{
    if(shm->status != ST_PASS && shm->status != ST_DISCARD) return;
    std::vector<u64> ch(shm->choices, shm->choices + shm->nchoices); u32 status = shm->status; bool nt; long grown = 0;
    for(int k = 0; k < 3; ++k) { long before = g_live; run_case(shm, 0, &ch, false, nullptr, nt); if(shm->status != status) return; grown = g_live - before; if(grown <= 0) return; }
    g_track = (void**)malloc(MAXTRACK * sizeof(void*)); g_ntrack = 0; run_case(shm, 0, &ch, false, nullptr, nt); void** t = g_track; g_track = nullptr;
    std::string where, msg = std::to_string(grown) + " allocations are never freed\n";
    for(size_t i = 0; i < g_ntrack && i < 3; ++i)
    {
        void* pcs[12]; int tid; size_t n = __asan_get_alloc_stack(t[i], pcs, 12, &tid); msg += "allocated in:\n";
        for(size_t k = 0; k < n; ++k) { char b[600]; b[0] = 0; __sanitizer_symbolize_pc(pcs[k], "%f %s:%l", b, sizeof b); msg += std::string("  ") + b + "\n"; std::string f(b); size_t e = f.find_first_of("( "); if(where.empty() && f.compare(0, 10, "pe_bliss::") == 0) where = f.substr(0, e); }
    }
    free(t); copystr(shm->sig, sizeof shm->sig, "leak:" + where); copystr(shm->msg, sizeof shm->msg, msg); shm->status = ST_FAIL;
}

static Shm* new_shm() { void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if(p == MAP_FAILED) { perror("mmap"); exit(2); } return (Shm*)p; }

static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static std::string jesc(const std::string& s)
{
    std::string r; for(unsigned char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c == '\n') r += "\\n"; else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r;
}

// signature of a crashed child from its stderr
static void crash_sig(const std::string& log, int st, std::string& sig, std::string& msg)
{
    std::string detail; std::string kind = WIFSIGNALED(st) ? "signal" + std::to_string(WTERMSIG(st)) : "exit" + std::to_string(WEXITSTATUS(st));
    size_t p = log.find("ERROR: AddressSanitizer: ");
    if(p != std::string::npos) { p += 25; size_t e = log.find_first_of(" \n", p); kind = log.substr(p, e - p); }
    else if((p = log.find("runtime error: ")) != std::string::npos) { kind = "ubsan"; size_t e = log.find('\n', p); detail = log.substr(p, e - p); }
    std::string fn;
    std::string brief = log.substr(0, log.find("Shadow bytes")); if(brief.size() > 2500) brief.resize(2500);
    for(size_t q = log.find(" in pe_bliss::"); q != std::string::npos; q = log.find(" in pe_bliss::", q + 1))
    {
        size_t e = log.find_first_of("(\n", q + 4); fn = log.substr(q + 4, e - q - 4); break;
    }
    sig = "crash:" + kind + ":" + fn;
    if(log.find("terminate called") != std::string::npos) sig += ":terminate";
    msg = "process died (" + kind + ") " + detail + "\n" + brief;
}

// runs a choice sequence in a forked child. returns status, fills sig/msg
static int run_forked(Shm* shm, const std::vector<u64>& ch, std::string& sig, std::string& msg, std::vector<u64>* out, const std::string& tmp, bool leaks)
{
    std::string lf = tmp + "/shrink.log";
    pid_t pid = fork();
    if(pid == 0)
    {
        int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1); close(fd);
        bool nt; run_case(shm, 0, &ch, false, nullptr, nt); if(leaks) check_leak(shm); _exit(0);
    }
    int st; while(waitpid(pid, &st, 0) < 0) {}
    u32 s = shm->status;
    if(s == ST_RUNNING) { crash_sig(slurp(lf), st, sig, msg); s = ST_FAIL; }
    else { sig = shm->sig; msg = shm->msg; if(s == ST_HANG) s = ST_FAIL; }
    if(out) { out->assign(shm->choices, shm->choices + shm->nchoices); }
    unlink(lf.c_str());
    return s;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void shrink(Shm* shm, std::vector<u64>& ch, std::string& sig, std::string& msg, std::string& desc, double budget, const std::string& tmp)
{
    double t0 = now(); bool hang = sig == "hang"; unsigned execs = 0;
    auto attempt = [&](const std::vector<u64>& c) -> bool {
        if(now() - t0 > budget || execs > 6000) return false;
        ++execs;
        std::string s, m; std::vector<u64> used;
        if(run_forked(shm, c, s, m, &used, tmp, sig.compare(0, 5, "leak:") == 0) != ST_FAIL || s != sig) return false;
        if(used.size() > c.size()) used = c;      // trailing zeros drawn implicitly
        while(!used.empty() && used.back() == 0) used.pop_back();
        if(used.size() < ch.size() || (used.size() == ch.size() && used < ch)) { ch = used; msg = m; desc = shm->desc; return true; }
        return false;
    };
    if(hang) return;
    bool progress = true;
    while(progress && now() - t0 < budget)
    {
        progress = false;
        for(size_t k = ch.size() / 2 + 1; k >= 1; k /= 2)
        {
            for(size_t i = 0; i + k <= ch.size();)
            {
                std::vector<u64> c(ch); c.erase(c.begin() + i, c.begin() + i + k);
                if(attempt(c)) progress = true;
                else
                {
                    c = ch; bool nz = false; for(size_t j = i; j < i + k; ++j) { nz |= c[j] != 0; c[j] = 0; }
                    if(nz && attempt(c)) progress = true; else i += k;
                }
                if(now() - t0 > budget) break;
            }
            if(k == 1) break;
        }
        for(size_t i = 0; i < ch.size() && now() - t0 < budget; ++i)
        {
            u64 lo = 0; // binary search for a smaller failing value
            while(i < ch.size() && lo < ch[i] && now() - t0 < budget)
            {
                u64 mid = lo + (ch[i] - lo) / 2; std::vector<u64> c(ch); c[i] = mid;
                if(attempt(c)) progress = true; else lo = mid + 1;
            }
        }
    }
}

struct Result { u64 evals = 0, nontriv = 0, distinct = 0, discards = 0; std::map<std::string, u64> labels; std::vector<std::string> samples; u64 corpus = 0, edges = 0; };

static u64 str_hash(const char* s) { return fnv(s, strlen(s)); }

static void worker(unsigned w, unsigned W, Shm* shm, u64 seed, u64 cases, double deadline, const std::string& tmp, u64 start, const std::set<std::string>& known, unsigned incarnation)
{
    std::string lf = tmp + "/w" + std::to_string(w) + ".log";
    int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); dup2(fd, 1); close(fd);
    std::map<std::string, u64> labels; std::unordered_set<u64> hashes; std::vector<std::string> samples; std::map<std::string, std::string> knownhit;
    std::vector<std::vector<u64>> corpus; static u8 best[1 << 16]; u64 edges = 0;
    bool guided = prop_info.guided_percent > 0;
    auto dump = [&] {
        std::ofstream o(tmp + "/w" + std::to_string(w) + "." + std::to_string(incarnation) + ".res", std::ios::binary);
        o << "edges " << edges << "\ncorpus " << corpus.size() << "\n";
        for(auto& l : labels) o << "label " << l.second << " " << l.first << "\n";
        for(auto& k : knownhit) o << "known " << k.first << "\n";
        for(auto& s : samples) o << "sample " << jesc(s) << "\n";
        for(u64 h : hashes) o << "h " << h << "\n";
    };
    u64 last_dump = 0;
    for(u64 i = start; i < cases; i += W)
    {
        if((i & 15) == 0 || guided) if(now() > deadline) break;
        shm->case_idx = i;
        u64 cs = mix(mix(seed, str_hash(prop_info.id)), i);
        bool nt = false; std::vector<u64> base; const std::vector<u64>* rep = nullptr;
        if(guided && !corpus.empty())
        {
            Rng r(cs ^ 0xabcdef);
            if(r.next() % 100 < prop_info.guided_percent)
            {
                base = corpus[r.next() % 4 == 0 ? r.next() % corpus.size() : corpus.size() - 1 - r.next() % std::min<size_t>(corpus.size(), 1 + corpus.size() / 4)];
                unsigned k = 1 + r.next() % 4;
                for(unsigned j = 0; j < k && !base.empty(); ++j)
                {
                    size_t p = r.next() % base.size();
                    switch(r.next() % 7)
                    {
                    case 0: base[p] = r.next(); break;
                    case 1: base[p] += 1 + r.next() % 4; break;
                    case 2: base[p] = r.next() % 16; break;
                    case 3: base.erase(base.begin() + p, base.begin() + std::min<size_t>(base.size(), p + 1 + r.next() % 4)); break;
                    case 4: { const auto& o = corpus[r.next() % corpus.size()]; if(!o.empty()) { size_t q = r.next() % o.size(); base.resize(p); base.insert(base.end(), o.begin() + q, o.end()); } break; }
                    case 5: base[p] = 1ull << (r.next() % 64); break;
                    default: base.insert(base.begin() + p, r.next()); break;
                    }
                }
                rep = &base;
            }
            pbt_cov_reset(); pbt_cov_on = true;
        }
        else if(guided) { pbt_cov_reset(); pbt_cov_on = true; }
        run_case(shm, cs, rep, true, &labels, nt);
        pbt_cov_on = false;
        if(i / W % 32 == 0) { check_leak(shm); }
        if(shm->status == ST_FAIL)
        {
            if(known.count(shm->sig)) { knownhit[shm->sig] = shm->msg; }
            else { dump(); _exit(1); }
        }
        shm->done = shm->done + 1;
        if(shm->status == ST_DISCARD) shm->discards = shm->discards + 1;
        if(guided)
        {
            bool news = false;
            for(unsigned j = 0; j < (1 << 16); ++j) { u8 c = pbt_cov_map[j]; if(!c) continue; u8 b = c >= 128 ? 128 : c >= 32 ? 64 : c >= 16 ? 32 : c >= 8 ? 16 : c >= 4 ? 8 : c == 3 ? 4 : c == 2 ? 2 : 1; if(!best[j]) ++edges; if(b & ~best[j]) { best[j] |= b; news = true; } }
            if(news && shm->nchoices < 20000) corpus.emplace_back(shm->choices, shm->choices + shm->nchoices);
        }
        if(nt)
        {
            u64 h = fnv(shm->choices, shm->nchoices * 8);
            if(hashes.insert(h).second)
            {
                shm->nontriv = shm->nontriv + 1;
                if(shm->desc[0] && (samples.size() < 2 || (samples.size() < 4 && (h & 255) == 0))) samples.push_back(std::string("case ") + std::to_string(i) + ": " + std::string(shm->desc).substr(0, 1500));
            }
        }
        if(++last_dump % 2000 == 0) dump();
    }
    dump(); shm->finished = 1; _exit(0);
}

static int do_run(int argc, char** argv)
{
    std::map<std::string, std::string> a; for(int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    u64 seed = strtoull(a["--seed"].c_str(), 0, 10), cases = strtoull(a["--cases"].c_str(), 0, 10); double tb = atof(a["--time"].c_str());
    unsigned W = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8; std::string tmp = a["--tmp"], out = a["--out"];
    std::set<std::string> known; { std::ifstream k(a["--known"]); std::string l; while(std::getline(k, l)) if(!l.empty()) known.insert(l); }
    if(prop_info.alloc_limit) g_alloc_limit = prop_info.alloc_limit;
    double t0 = now(), deadline = t0 + tb;
    std::vector<Shm*> shms; std::map<pid_t, unsigned> pids; std::vector<unsigned> inc(W, 0);
    auto spawn = [&](unsigned w, u64 start) { pid_t p = fork(); if(p == 0) { worker(w, W, shms[w], seed, cases, deadline, tmp, start, known, inc[w]); } pids[p] = w; ++inc[w]; };
    for(unsigned w = 0; w < W; ++w) { shms.push_back(new_shm()); }
    for(unsigned w = 0; w < W; ++w) spawn(w, w);
    bool failed = false; std::vector<u64> ch; std::string sig, msg, desc; u64 fidx = 0; std::set<std::string> knownhit; bool internal = false;
    while(!pids.empty())
    {
        int st; pid_t p = wait(&st); if(p < 0) break;
        if(!pids.count(p)) continue;
        unsigned w = pids[p]; pids.erase(p); Shm* s = shms[w];
        if(failed) continue;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->finished) continue;
        std::string csig, cmsg;
        if(s->status == ST_FAIL || s->status == ST_HANG) { csig = s->sig; cmsg = s->msg; }
        else if(s->status == ST_RUNNING) crash_sig(slurp(tmp + "/w" + std::to_string(w) + ".log"), st, csig, cmsg);
        else { internal = true; std::cerr << "worker " << w << " died outside a case, status " << st << "\n" << slurp(tmp + "/w" + std::to_string(w) + ".log").substr(0, 2000); continue; }
        if(failed) continue;
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { internal = true; std::cerr << "worker " << w << " was killed (out of memory?)\n"; continue; }
        if(known.count(csig)) { knownhit.insert(csig); s->done = s->done + 1; u64 nx = s->case_idx + W; if(nx < cases && now() < deadline) { spawn(w, nx); } continue; }
        if(!failed)
        {
            failed = true; sig = csig; msg = cmsg; desc = s->desc; fidx = s->case_idx; ch.assign(s->choices, s->choices + s->nchoices);
            for(auto& q : pids) kill(q.first, SIGKILL);
        }
    }
    Result r; std::unordered_set<u64> hs;
    for(unsigned w = 0; w < W; ++w)
    {
        r.evals += shms[w]->done; r.discards += shms[w]->discards; r.nontriv += shms[w]->nontriv;
        for(unsigned k = 0; k < inc[w]; ++k)
        {
            std::ifstream i(tmp + "/w" + std::to_string(w) + "." + std::to_string(k) + ".res"); std::string t; 
            std::string line;
            while(std::getline(i, line))
            {
                size_t sp = line.find(' '); t = line.substr(0, sp); std::string v = line.substr(sp + 1);
                if(t == "label") { size_t q = v.find(' '); r.labels[v.substr(q + 1)] += strtoull(v.c_str(), 0, 10); }
                else if(t == "sample") r.samples.push_back(v);
                else if(t == "known") knownhit.insert(v);
                else if(t == "edges") r.edges = std::max<u64>(r.edges, strtoull(v.c_str(), 0, 10));
                else if(t == "corpus") r.corpus += strtoull(v.c_str(), 0, 10);
                else if(t == "h") hs.insert(strtoull(v.c_str(), 0, 10));
            }
        }
    }
    std::ofstream o(out);
    o << "{\"evaluations\":" << r.evals + (failed ? 1 : 0) << ",\"distinct_nontrivial\":" << hs.size() << ",\"discarded\":" << r.discards << ",\"planned\":" << cases << ",\"corpus\":" << r.corpus << ",\"edges\":" << r.edges << ",\"wall\":" << now() - t0;
    o << ",\"rule\":\"" << jesc(prop_info.rule) << "\",\"labels\":{"; bool first = true;
    for(auto& l : r.labels) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
    o << "},\"samples\":["; first = true;
    for(size_t i = 0; i < r.samples.size() && i < 10; ++i) { o << (first ? "" : ",") << "\"" << r.samples[i] << "\""; first = false; }
    o << "],\"known\":["; first = true; for(auto& k : knownhit) { o << (first ? "" : ",") << "\"" << jesc(k) << "\""; first = false; }
    o << "],\"internal_error\":" << (internal ? "true" : "false") << ",\"failed\":" << (failed ? "true" : "false");
    if(failed)
    {
        // confirm, shrink, confirm 3x
        Shm* s = new_shm(); std::vector<u64> orig(ch); std::string osig = sig, s2, m2; std::string od = desc, om = msg;
        int ok = 0; bool leak = sig.compare(0, 5, "leak:") == 0;
        if(run_forked(s, orig, s2, m2, nullptr, tmp, leak) == ST_FAIL) { if(s2 != sig) { sig = s2; msg = m2; } shrink(s, ch, sig, msg, desc, a.count("--shrink") ? atof(a["--shrink"].c_str()) : 25, tmp); }
        for(int k = 0; k < 3; ++k) if(run_forked(s, ch, s2, m2, nullptr, tmp, leak) == ST_FAIL) { ++ok; msg = m2; desc = s->desc; sig = s2; }
        if(ok < 3)
        {
            ch = orig; ok = 0; for(int k = 0; k < 3; ++k) if(run_forked(s, ch, s2, m2, nullptr, tmp, leak) == ST_FAIL) ++ok;
            sig = osig; msg = om; desc = od;
        }
        o << ",\"reproduced\":" << ok << ",\"case\":" << fidx << ",\"sig\":\"" << jesc(sig) << "\",\"msg\":\"" << jesc(msg) << "\",\"desc\":\"" << jesc(desc) << "\",\"orig_len\":" << orig.size() << ",\"choices\":[";
        for(size_t i = 0; i < ch.size(); ++i) o << (i ? "," : "") << ch[i];
        o << "]";
    }
    o << "}\n"; o.close();
    return internal ? 2 : 0;
}

static int do_replay(char** argv)
{
    // argv[2]: file with one decimal choice per line
    std::ifstream i(argv[2]); std::vector<u64> ch; u64 v; while(i >> v) ch.push_back(v);
    if(prop_info.alloc_limit) g_alloc_limit = prop_info.alloc_limit;
    Shm* s = new_shm(); bool nt; run_case(s, 0, &ch, false, nullptr, nt); check_leak(s);
    std::cout << s->desc << "\n";
    if(s->status == ST_FAIL) { std::cout << "FAIL sig=" << s->sig << "\n" << s->msg << "\n"; return 1; }
    std::cout << (s->status == ST_DISCARD ? "DISCARD" : "PASS") << "\n"; return 0;
}
static int do_one(char** argv)
{
    u64 seed = strtoull(argv[2], 0, 10), i = strtoull(argv[3], 0, 10);
    if(prop_info.alloc_limit) g_alloc_limit = prop_info.alloc_limit;
    Shm* s = new_shm(); bool nt; run_case(s, mix(mix(seed, str_hash(prop_info.id)), i), nullptr, true, nullptr, nt);
    std::cout << s->desc << "\n" << "status " << s->status << " choices " << s->nchoices << " nontrivial " << nt << " " << s->sig << "\n" << s->msg << "\n"; return s->status == ST_FAIL;
}
}

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=6:handle_abort=1:print_legend=0:alloc_dealloc_mismatch=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }

int main(int argc, char** argv)
{
    signal(SIGPROF, pbt::on_cpu);
    if(argc >= 2 && std::string(argv[1]) == "run") return pbt::do_run(argc, argv);
    if(argc >= 3 && std::string(argv[1]) == "replay") return pbt::do_replay(argv);
    if(argc >= 4 && std::string(argv[1]) == "one") return pbt::do_one(argv);
    std::cout << pbt::prop_info.id << " " << pbt::prop_info.quick_cases << " " << pbt::prop_info.thorough_cases << "\n";
    return 0;
}
