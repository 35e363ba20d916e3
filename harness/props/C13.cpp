// C13: rebasing adds the base difference to every relocated address and changes nothing else; rebasing composes.
#include "gen_pe.h"
using namespace ref;

struct State { std::vector<Str> secs; Str headers; u64 base; };
static State snap(pe_base& pe) { State s; for(auto& x : pe.get_image_sections()) s.secs.push_back(x.get_raw_data()); s.headers = pe.get_full_headers_data(); s.base = pe.get_image_base_64(); return s; }
static void same(const State& a, const State& b, const char* sig, const char* what)
{
    CHECK_EQ(a.base, b.base, sig);
    CHECK(a.secs.size() == b.secs.size(), sig, what << ": number of sections");
    for(size_t i = 0; i < a.secs.size(); ++i) { CHECK(a.secs[i].size() == b.secs[i].size(), sig, what << ": section " << i << " has " << a.secs[i].size() << " bytes, expected " << b.secs[i].size()); for(size_t k = 0; k < a.secs[i].size(); ++k) CHECK(a.secs[i][k] == b.secs[i][k], sig, what << ": byte " << hx(k) << " of section " << i << " is " << hx((u8)a.secs[i][k]) << ", expected " << hx((u8)b.secs[i][k])); }
    CHECK(a.headers == b.headers, sig, what << ": bytes of the headers differ");
}
static void run(Gen& g)
{
    Img m = host_img(g, (unsigned)g.range(1, 3), 1, -1, true, addressable); Placer p(g, m); u32 w = m.p64 ? 8 : 4;
    if(g.chance(1, 3)) { p.trim(); } if(g.chance(1, 4)) { m.stub = g.bytes((size_t)g.below(40) * 4); m.lfanew = 64 + (u32)m.stub.size(); m.size_headers = (u32)up(m.table_end(), m.falign); u32 ptr = m.size_headers; for(Sec& s : m.secs) if(s.rawsize) { s.rawptr = ptr; ptr += (u32)up(s.rawsize, m.falign); } }
    if(g.chance(1, 3)) m.base = m.p64 ? g.u64any() & ~0xffffull : (u32)g.u32any() & ~0xffffu;
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0);
    Pe pe = must_load(f, m.p64, "rebase.load"); State s0 = snap(*pe); CHECK_EQ(s0.base, m.base, "rebase.load");
    u16 T = m.p64 ? 10 : 3; size_t nt = crowd(g, 5, 300), bad = ~(size_t)0; std::vector<u32> order; relocation_table_list tabs; Str why; size_t n = 0;
    for(size_t t = 0; t < nt; ++t)
    {   // one table: targets within 4 KB of its base
        std::vector<u32> ok; int sec = (int)g.below(m.secs.size() + 1) - 1; u64 lo = sec < 0 ? 0 : m.secs[sec].va, hi = sec < 0 ? s0.headers.size() : lo + s0.secs[sec].size(); if(hi < lo + w) continue;
        u32 first = (u32)g.range(lo, hi - w), base = g.flip() ? first & ~0xfffu : (u32)(first - std::min<u64>(g.below(4096), first)); relocation_table x(base); size_t k = 1 + crowd(g, 8, 400, 400);
        for(size_t e = 0; e < k; ++e)
        {
            if(g.chance(1, 5)) { x.add_relocation(relocation_entry((u16)g.below(4096), 0)); if(g.flip()) continue; }
            u64 b = std::max<u64>(lo, base), c = std::min<u64>(hi - w, (u64)base + 4095); u64 a = e == 0 ? first : g.chance(1, 4) ? b : g.chance(1, 4) ? c : g.range(b, c);
            if(bad == ~(size_t)0 && g.chance(1, 60)) { u32 d = (u32)(hi - base); if(hi - base <= 4095 + w && hi >= w && (u64)d >= 1) { a = hi - (w - 1 - g.below(std::min<u64>(w - 1, d))); if(a - base > 4095) continue; bad = order.size(); why = "target crossing the end of the data"; } else continue; }
            if(a - base > 4095) continue;
            order.push_back((u32)a); x.add_relocation(relocation_entry((u16)(a - base), T)); ++n;
        }
        tabs.push_back(x);
    }
    auto model = [&](const State& s, u64 nb) { State r = s; u64 delta = nb - s.base; for(u32 a : order) { Str* d = &r.headers; u32 o = a; for(size_t i = 0; i < m.secs.size(); ++i) if(a >= m.secs[i].va && a < m.secs[i].va + 0x1000) { d = &r.secs[i]; o = a - m.secs[i].va; } if(m.p64) p64(*d, o, g64(*d, o) + delta); else p32(*d, o, g32(*d, o) + (u32)delta); } r.base = m.p64 ? nb : (u32)nb; return r; };
    auto any = [&]() -> u64 { switch(g.below(4)) { case 0: return m.p64 ? g.u64any() : g.u32any(); case 1: return (m.base + 0x10000 * g.below(9)) & (m.p64 ? ~0ull : 0xffffffffull); case 2: return (m.base - 0x10000 * g.below(9)) & (m.p64 ? ~0ull : 0xffffffffull); default: return (m.p64 ? g.u64any() : g.u32any()) & ~0xffffull; } };
    u64 b1 = any(), b2 = any(); std::ostringstream o; o << describe(m) << "; " << tabs.size() << " tables, " << n << " targets:"; for(size_t i = 0; i < order.size() && i < 8; ++i) o << " " << hx(order[i]); o << " -> base " << hx(b1) << " then " << hx(b2) << " " << why; g.note(o.str());
    bool via_dir = g.chance(1, 4) && bad == ~(size_t)0;
    if(via_dir)
    {   // the list as the library itself stores and reads it
        section sx; sx.set_name(".reloc"); sx.set_raw_data(Str(1, 0)); section& at = pe->add_section(sx); rebuild_relocations(*pe, tabs, at); tabs = get_relocations(*pe); s0 = snap(*pe); g.label("list read from the image");
    }
    bool thr = throws_pe([&] { rebase_image(*pe, tabs, b1); });
    if(bad != ~(size_t)0) { CHECK(thr, "rebase.bad", "accepted a " << why); g.nontrivial(); g.label("refused"); return; }
    CHECK(!thr, "rebase.refused", "a valid relocation list was refused"); if(n) g.nontrivial(); bool overlap = false;
    { std::vector<u32> q = order; std::sort(q.begin(), q.end()); for(size_t i = 1; i < q.size(); ++i) if(q[i] != q[i - 1] && q[i] < q[i - 1] + w) overlap = true; if(overlap) g.label("partly overlapping targets"); }
    State s1 = snap(*pe); same(s1, model(s0, b1), "rebase.exact", "after one rebase");
    pe_base copy(*pe);
    rebase_image(*pe, tabs, b2); State s2 = snap(*pe); same(s2, overlap ? model(s1, b2) : model(s0, b2), "rebase.compose", "after rebasing twice");
    if(!overlap) { rebase_image(copy, tabs, s0.base); same(snap(copy), s0, "rebase.back", "after rebasing there and back"); }
    // the saved file carries the rebased bytes
    Str out = rebuilt(*pe); Img r; Str err; CHECK(parse(out, r, err), "rebase.file", err); CHECK_EQ(r.base, m.p64 ? b2 : (u64)(u32)b2, "rebase.filebase");
    CHECK(r.secs.size() == s2.secs.size(), "rebase.file", "number of sections");
    for(size_t i = 0; i < r.secs.size(); ++i) for(size_t k = 0; k < std::max(r.secs[i].data.size(), s2.secs[i].size()); ++k) CHECK((k < r.secs[i].data.size() ? r.secs[i].data[k] : 0) == (k < s2.secs[i].size() ? s2.secs[i][k] : 0), "rebase.file", "byte " << hx(k) << " of section " << i << " of the saved file");
    if(g.chance(1, 4)) { Pe q = must_load(out, m.p64, "rebase.reload"); u64 v = 0; if(m.p64) { q->get_image_base(v); } else { u32 x = 0; q->get_image_base(x); v = x; } CHECK_EQ(v, r.base, "rebase.reload"); }
}
const pbt::PropInfo pbt::prop_info = {"C13", "Images with generated contents and base addresses, rebased twice (to near, far, unaligned and extreme bases) with up to 5 tables of pointer-sized and ABSOLUTE entries whose targets lie anywhere in section data or headers, may repeat, overlap or cross the end of data. Non-trivial: at least one relocated target.", run, 120000, 4000000, 0, 0, 20};
