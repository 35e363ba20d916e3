// C12: relocation tables are read exactly and rebuilt into a directory which decodes to the same tables.
#include "gen_pe.h"
using namespace ref;
struct T { u32 rva; std::vector<u16> e; };

static std::vector<T> filter(std::vector<T> v) { for(T& t : v) t.e.erase(std::remove_if(t.e.begin(), t.e.end(), [](u16 x) { return x >> 12 == 0; }), t.e.end()); return v; }
static void same(const relocation_table_list& l, const std::vector<T>& w, const char* sig)
{
    CHECK(l.size() == w.size(), sig, "got " << l.size() << " tables, expected " << w.size());
    for(size_t i = 0; i < w.size(); ++i)
    {
        CHECK(l[i].get_rva() == w[i].rva, sig, "table " << i << " at " << hx(l[i].get_rva()) << ", expected " << hx(w[i].rva)); const auto& r = l[i].get_relocations();
        CHECK(r.size() == w[i].e.size(), sig, "table " << i << " has " << r.size() << " entries, expected " << w[i].e.size());
        for(size_t k = 0; k < r.size(); ++k) CHECK(r[k].get_item() == w[i].e[k] && r[k].get_rva() == (w[i].e[k] & 0xfff) && r[k].get_type() == w[i].e[k] >> 12, sig, "entry " << k << " of table " << i << " is " << hx(r[k].get_item()) << ", expected " << hx(w[i].e[k]));
    }
}
static std::vector<T> gen_tables(Gen& g, bool huge)
{
    if(huge)
    {   // a block of 64 KB and more, or hundreds of blocks
        g.label("huge"); bool many = g.flip(); std::vector<T> v((size_t)(many ? g.chance(1, 4) ? g.range(1025, 8000) : g.range(250, 900) : g.range(1, 2))); u32 at = (u32)g.below(64) << 12; pbt::Rng r(g.raw(0)); for(T& t : v) { t.rva = at; at += 0x1000; size_t n = (size_t)(many ? r.next() % 6 : g.range(2000, 40000)); for(size_t k = 0; k < n; ++k) { u64 x = r.next(); t.e.push_back(x & 0x7000 ? (u16)x : (u16)(3 << 12 | (x & 0xfff))); } }
        return v;
    }
    std::vector<T> v((size_t)g.small(6)); for(T& t : v) { t.rva = g.chance(1, 4) ? g.u32any() : (u32)g.below(64) << 12; size_t n = (size_t)(g.chance(1, 40) ? g.range(50, 900) : g.small(12)); for(size_t k = 0; k < n; ++k) t.e.push_back(g.chance(1, 3) ? g.u16any() : (u16)(g.pick({3, 10, 0}) << 12 | (u16)g.below(4096))); }
    return v;
}
static void read_part(Gen& g)
{
    bool huge = g.chance(1, 250); Img m = host_img(g, (unsigned)g.range(1, 2), huge ? 64 : 2, -1, true, huge ? 0 : 0xfffff000ull); Placer p(g, m, true, true); std::vector<T> v = gen_tables(g, huge); bool stripped = g.chance(1, 12), has = !g.chance(1, 20); m.chars = (u16)(g.u16any() & ~1) | (stripped ? 1 : 0); Str d, why;
    int bad = g.chance(1, 8) && !v.empty() ? (int)g.below(v.size()) : -1;
    for(size_t i = 0; i < v.size(); ++i) { if(v[i].e.size() % 2 && g.chance(2, 3)) v[i].e.push_back(0); u32 sz = 8 + 2 * (u32)v[i].e.size(); if((int)i == bad) { if(g.flip()) { sz += 1 + 2 * (u32)g.below(3); why = "odd block size"; } else { sz = (u32)g.range(0x200000, 0xffffffff) & ~1u; why = "block beyond its section"; } } d += le<u32>(v[i].rva) + le<u32>(sz); for(u16 e : v[i].e) d += le<u16>(e); }
    u32 size = (u32)d.size(); if(!d.empty() && why.empty() && g.chance(1, 4)) { d += Str(8, 0); size += 8 + (u32)g.below(100); } // a zero block also ends the list
    if(d.empty() || g.chance(1, 3)) d += g.bytes(8);                                     // what follows the directory does not matter
    u32 rva = p.place(d, g.flip() ? 4 : 1); if(has) m.dirs[5] = {rva, size};
    if(why.empty() && g.flip()) p.trim();
    std::ostringstream o; o << "read: " << describe(m) << " at " << hx(rva) << "+" << hx(size) << ": " << v.size() << " tables " << why; g.note(o.str());
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0); Pe pe = must_load(f, m.p64, "reloc.load"); CHECK(pe->has_reloc() == (has && !stripped), "reloc.has", "has_reloc()");
    bool abs_ = g.flip(); relocation_table_list l; bool thr = throws_pe([&] { l = get_relocations(*pe, abs_); });
    if(!has || stripped) { CHECK(!thr && l.empty(), "reloc.none", "relocations without a directory"); g.label("no relocations"); return; }
    CHECK(thr == !why.empty(), "reloc.accept", (thr ? "a valid relocation directory was refused" : "accepted a directory with " + why)); if(!v.empty()) g.nontrivial(); if(thr) { g.label("refused: " + why); return; }
    same(l, abs_ ? v : filter(v), "reloc.read");
}
static void rebuild_part(Gen& g)
{
    unsigned ns = (unsigned)g.range(1, 3); Img m = host_img(g, ns, 2, -1, true, addressable); Placer p(g, m); m.chars |= g.flip(); m.dllchars = g.u16any(); Pe pe = must_load(write(m), m.p64, "relocreb.load"); std::vector<T> v = gen_tables(g, g.chance(1, 250));
    relocation_table_list l; for(T& t : v) { relocation_table x(t.rva); if(g.flip()) { x = relocation_table(); x.set_rva(t.rva); } for(u16 e : t.e) { relocation_entry y; switch(g.below(3)) { case 0: y = relocation_entry(e); break; case 1: y = relocation_entry((u16)(e & 0xfff), (u16)(e >> 12)); break; default: y.set_rva(e & 0xfff); y.set_type(e >> 12); } x.add_relocation(y); } l.push_back(x); }
    bool unfit = !l.empty() && g.chance(1, 30); if(unfit) { u32 a = (u32)g.edge(0, 0xffff), t = (u32)g.edge(0, 0xffff); if(g.flip()) a |= 0x1000u << g.below(4); else t |= 16u << g.below(12); if(g.flip()) { if(a > 0xfff) t &= 15; else a &= 0xfff; } l[(size_t)g.below(l.size())].add_relocation(relocation_entry((u16)a, (u16)t)); }
    u32 off = any_offset(g); bool save = g.chance(3, 4), strip = g.flip(); int mode = (int)g.weighted({3, 4, 1}); size_t idx = (size_t)g.below(ns); section loose;
    if(mode == 0) { section a; a.set_name(".reloc"); a.set_raw_data(g.bytes((size_t)g.range(1, 0x600))); pe->add_section(a); idx = pe->get_image_sections().size() - 1; }
    section* s = &pe->get_image_sections()[idx]; if(mode == 2) { loose.set_raw_data(Str(0x10000, 0)); loose.set_virtual_address(0x1000); s = &loose; } bool last = idx + 1 == pe->get_image_sections().size();
    u64 need = 0; for(T& t : v) need += up(8 + 2 * t.e.size(), 4); u64 room = mode == 2 ? 0 : up(s->get_size_of_raw_data(), m.falign); if(mode != 2) off = fit_offset(g, off, room, need, last); u64 lo = up(off, 4) + need, hi = lo + up(off, 4) - off;
    std::vector<Str> before; for(auto& x : pe->get_image_sections()) before.push_back(x.get_raw_data()); u16 c0 = pe->get_characteristics(), d0 = pe->get_dll_characteristics();
    std::ostringstream o; o << "rebuild: " << describe(m) << " -> section " << idx << (last ? " (last)" : "") << " offset " << hx(off) << ": " << v.size() << " tables, " << need << " bytes save=" << save << " strip=" << strip; g.note(o.str());
    Str intact = whole(*pe); image_directory ret; bool thr = false; Str msg; try { ret = rebuild_relocations(*pe, l, *s, off, save, strip); } catch(const pe_exception& e) { thr = true; msg = e.what(); } if(thr) CHECK(whole(*pe) == intact, "relocreb.refused-change", "the image was changed although the request was refused: " << msg);
    if(unfit) { CHECK(thr, "relocreb.unfit", "wrote an entry that does not fit the 12 bits of its address and the 4 bits of its type"); for(size_t i = 0; i < before.size(); ++i) CHECK(pe->get_image_sections()[i].get_raw_data() == before[i], "relocreb.unfit", "refused relocations were written"); g.nontrivial(); g.label("entry that does not fit its bits"); return; }
    if(mode == 2) { CHECK(thr, "relocreb.unattached", "relocations rebuilt into a section which is not part of the image"); g.nontrivial(); g.label("unattached section"); return; }
    if(thr) { CHECK(!last && room < hi, "relocreb.refused", "refused although " << room << " bytes are there and at most " << hi << " are needed: " << msg); g.label("no room"); g.nontrivial(); return; }
    CHECK(last || room >= lo, "relocreb.room", "at least " << lo << " bytes accepted in a section of " << room << " bytes");
    for(size_t i = 0; i < before.size(); ++i)
    {
        const Str& now = pe->get_image_sections()[i].get_raw_data();
        for(size_t b = 0; b < std::max(before[i].size(), now.size()); ++b) { char x = b < before[i].size() ? before[i][b] : 0, y = b < now.size() ? now[b] : 0; if(x != y) CHECK(i == idx && b >= off && b < lo, "relocreb.clobber", "byte " << hx(b) << " of section " << i << " changed; the directory was to be built at " << hx(off) << ".." << hx(lo) << " of section " << idx); }
    }
    CHECK_EQ(pe->get_directory_rva(5), save ? ret.get_rva() : 0, "relocreb.header"); CHECK_EQ(pe->get_directory_size(5), save ? ret.get_size() : 0, "relocreb.header");
    CHECK_EQ(pe->get_characteristics(), (u16)(save ? c0 & ~1 : c0), "relocreb.flags"); CHECK_EQ(pe->get_dll_characteristics(), (u16)(save ? d0 | 0x40 : d0), "relocreb.flags");
    CHECK_EQ((u64)ret.get_size(), need, "relocreb.size"); pe->set_directory_rva(5, ret.get_rva()); pe->set_directory_size(5, ret.get_size()); pe->clear_characteristics_flags(1);
    Str out = rebuilt(*pe); Img r; Str why; CHECK(parse(out, r, why) && well_formed(r, out.size(), why), "relocreb.file", why); std::vector<T> got;
    try { Mem q(r); u32 a = ret.get_rva(), e = a + ret.get_size(); CHECK(a % 4 == 0, "relocreb.align", "directory at unaligned " << hx(a)); while(a < e) { T t; t.rva = q.r32(a); u32 sz = q.r32(a + 4); CHECK(sz >= 8 && sz % 4 == 0 && sz <= e - a, "relocreb.block", "block of " << sz << " bytes at " << hx(a)); for(u32 k = 8; k < sz; k += 2) t.e.push_back(q.r16(a + k)); a += sz; got.push_back(t); } }
    catch(const OutOfRange&) { fail("relocreb.decode", "the rebuilt directory runs out of the image"); }
    CHECK_EQ(got.size(), v.size(), "relocreb.tables"); g.nontrivial();
    for(size_t i = 0; i < v.size(); ++i) { if(got[i].e.size() == v[i].e.size() + 1 && v[i].e.size() % 2) { CHECK(got[i].e.back() == 0, "relocreb.padding", "padding entry is not ABSOLUTE"); got[i].e.pop_back(); } CHECK(got[i].rva == v[i].rva && got[i].e == v[i].e, "relocreb.table", "table " << i << " at " << hx(v[i].rva) << " with " << v[i].e.size() << " entries differs in the file"); }
    if(v.empty()) return;                                                                // an empty directory may lie at the very end of its section, where there is nothing to read
    try { same(get_relocations(*must_load(out, m.p64, "relocreb.reload")), filter(v), "relocreb.reread"); } catch(const pe_exception& e) { fail("relocreb.reread", std::string("the rebuilt directory cannot be read back: ") + e.what()); }
}
static void run(Gen& g) { if(g.flip()) read_part(g); else rebuild_part(g); }
const pbt::PropInfo pbt::prop_info = {"C12", "Relocation tables (0..6 blocks of up to 900 entries of any type) laid out by the reference writer and read, or rebuilt into last, inner or new sections and decoded by a reference reader. Non-trivial: at least one table read, a rebuild or a refusal.", run, 120000, 4000000, 0, 0, 20};
