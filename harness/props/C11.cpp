// C11: rebuilding exports from any list gives an export directory which an independent reader decodes to that list.
#include "gen_pe.h"
using namespace ref;
struct F { u16 ord; u32 rva; bool named, fwd; Str name, fname; };

static void run(Gen& g)
{
    unsigned ns = (unsigned)g.range(1, 3); Img m = host_img(g, ns, 4, -1, true, addressable); Placer p(g, m); Pe pe = must_load(write(m), m.p64, "expreb.load");
    //--- functions
    std::map<u32, F> want; std::vector<F> order; std::set<Str> used; u32 n = (u32)(g.chance(1, 50) ? g.range(40, 400) : g.small(14)); u32 lo = (u32)(g.chance(1, 3) ? g.edge(0, 0xffff) : g.range(0, 20)); u32 span = (u32)(g.chance(1, 10) ? 1500 : n * 2 + 4);
    bool nameless = g.chance(1, 8), wide = g.chance(1, 300); if(wide) { lo = (u32)g.below(3); n = 2 + n % 8; span = 0x10000 - lo; g.label("ordinals over the whole range"); }
    for(u32 i = 0; i < n; ++i)
    {
        F f; u32 o = wide && i < 2 ? (i ? lo : 0xffff) : g.chance(2, 3) ? lo + i : lo + (u32)g.below(span); if(o > 0xffff || want.count(o)) continue; f.ord = (u16)o; f.named = !nameless && g.chance(3, 4); f.fwd = g.chance(1, 4);
        if(f.named) { f.name = sym_name(g, 16); while(!used.insert(f.name).second) f.name += "_"; } if(f.fwd) { f.fname = g.name(1, 6) + "." + sym_name(g, 12); if(g.chance(1, 20000)) { f.fname += Str((size_t)g.range(0x8000, 0x18000), 'f'); g.label("very long forwarder"); } }
        f.rva = f.fwd && g.flip() ? 0 : (g.chance(1, 4) ? (u32)g.range(0xa0000000u, 0xcfffffffu) : (u32)g.range(1, 0xfff)); want[o] = f; order.push_back(f);
    }
    if(g.flip()) for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[(size_t)g.below(i)]);
    export_info info; Str dll = sym_name(g, 20); u32 ch = g.u32any(), ts = g.u32any(), ob = g.u32any(); u16 maj = g.u16any(), min = g.u16any();
    info.set_name(dll); info.set_characteristics(ch); info.set_timestamp(ts); info.set_major_version(maj); info.set_minor_version(min); info.set_ordinal_base(ob); info.set_number_of_functions(g.u32any()); info.set_number_of_names(g.u32any());
    exported_functions_list l; for(F& f : order) { exported_function x; x.set_ordinal(f.ord); x.set_rva(f.rva); x.set_name(f.name); x.set_name_ordinal(g.u16any()); x.set_forwarded_name(f.fname); l.push_back(x); }
    Str dup; if(l.size() > 1 && g.chance(1, 12)) { size_t a = (size_t)g.below(l.size()), b = (a + 1 + (size_t)g.below(l.size() - 1)) % l.size(); if(g.flip()) { l[a].set_ordinal(l[b].get_ordinal()); dup = "two functions with one ordinal"; } else if(l[b].has_name()) { l[a].set_name(l[b].get_name()); dup = "two functions with one name"; } }
    //--- place
    u32 off = any_offset(g); bool save = g.chance(3, 4), strip = g.flip(); int mode = (int)g.weighted({3, 4, 1}); size_t idx = (size_t)g.below(ns); section loose;
    if(mode == 0) { section a; a.set_name(".edata"); a.set_raw_data(g.bytes((size_t)g.range(1, 0x600))); pe->add_section(a); idx = pe->get_image_sections().size() - 1; }
    section* s = &pe->get_image_sections()[idx]; if(mode == 2) { loose.set_raw_data(Str(0x10000, 0)); loose.set_virtual_address(0x1000); s = &loose; } bool last = idx + 1 == pe->get_image_sections().size();
    u64 need = 40 + dll.size() + 1; for(F& f : order) { if(f.named) need += f.name.size() + 1 + 6; if(f.fwd) need += f.fname.size() + 1; } if(!want.empty()) need += 4 * (want.rbegin()->first - want.begin()->first + 1);
    u64 room = mode == 2 ? 0 : up(s->get_size_of_raw_data(), m.falign); if(mode != 2) off = fit_offset(g, off, room, need, last); u64 hi = up(off, 4) + need + 3, lo_need = off + need;
    std::vector<Str> before; for(auto& x : pe->get_image_sections()) before.push_back(x.get_raw_data());
    std::ostringstream o; o << describe(m) << " -> section " << idx << (last ? " (last)" : "") << " offset " << hx(off) << ": " << l.size() << " functions, ordinals " << (want.empty() ? 0 : want.begin()->first) << ".." << (want.empty() ? 0 : want.rbegin()->first) << " save=" << save << " strip=" << strip << " " << dup; g.note(o.str());
    Str intact = whole(*pe); image_directory ret; bool thr = false; Str msg; try { ret = rebuild_exports(*pe, info, l, *s, off, save, strip); } catch(const pe_exception& e) { thr = true; msg = e.what(); } if(thr) CHECK(whole(*pe) == intact, "expreb.refused-change", "the image was changed although the request was refused: " << msg);
    if(mode == 2) { CHECK(thr, "expreb.unattached", "exports rebuilt into a section which is not part of the image"); g.nontrivial(); g.label("unattached section"); return; }
    if(!dup.empty()) { CHECK(thr, "expreb.duplicate", "accepted " << dup); g.label(dup); g.nontrivial(); return; }
    if(thr) { CHECK(!last && room < hi, "expreb.refused", "refused although " << room << " bytes are there and at most " << hi << " are needed: " << msg); g.label("no room"); g.nontrivial(); return; }
    CHECK(last || room >= lo_need, "expreb.room", "at least " << lo_need << " bytes of exports accepted in a section of " << room << " bytes");
    for(size_t i = 0; i < before.size(); ++i)
    {
        const Str& now = pe->get_image_sections()[i].get_raw_data();
        for(size_t b = 0; b < std::max(before[i].size(), now.size()); ++b) { char x = b < before[i].size() ? before[i][b] : 0, y = b < now.size() ? now[b] : 0; if(x != y) CHECK(i == idx && b >= off && b < hi, "expreb.clobber", "byte " << hx(b) << " of section " << i << " changed; the directory was to be built at " << hx(off) << ".." << hx(hi) << " of section " << idx); }
    }
    CHECK_EQ(pe->get_directory_rva(0), save ? ret.get_rva() : 0, "expreb.header"); CHECK_EQ(pe->get_directory_size(0), save ? ret.get_size() : 0, "expreb.header"); pe->set_directory_rva(0, ret.get_rva()); pe->set_directory_size(0, ret.get_size());
    Str out = rebuilt(*pe); Img r; Str why; CHECK(parse(out, r, why) && well_formed(r, out.size(), why), "expreb.file", why);
    try
    {   // reference reader
        Mem q(r); u32 d = ret.get_rva(); CHECK(d % 4 == 0, "expreb.align", "directory at unaligned " << hx(d));
        CHECK_EQ(q.r32(d), ch, "expreb.info"); CHECK_EQ(q.r32(d + 4), ts, "expreb.info"); CHECK_EQ(q.r16(d + 8), maj, "expreb.info"); CHECK_EQ(q.r16(d + 10), min, "expreb.info"); CHECK_EQ(q.z(q.r32(d + 12)), dll, "expreb.info");
        u32 base = q.r32(d + 16), nf = q.r32(d + 20), nn = q.r32(d + 24), av = q.r32(d + 28), nv = q.r32(d + 32), ov = q.r32(d + 36); u32 named = 0; for(F& f : order) named += f.named;
        CHECK_EQ(nn, named, "expreb.names");
        if(want.empty()) { CHECK_EQ(nf, 0u, "expreb.count"); CHECK_EQ(base, ob, "expreb.base"); } else { CHECK_EQ(base, want.begin()->first, "expreb.base"); CHECK_EQ(nf, want.rbegin()->first - base + 1, "expreb.count"); }
        std::map<u16, Str> byord; Str prev; for(u32 i = 0; i < nn; ++i) { Str nm = q.z(q.r32(nv + 4 * i)); CHECK(i == 0 || prev < nm, "expreb.sorted", "the name table is not sorted: \"" << nm << "\" after \"" << prev << "\""); prev = nm; CHECK(byord.insert(std::make_pair(q.r16(ov + 2 * i), nm)).second, "expreb.names", "two names for one slot"); }
        for(u32 i = 0; i < nf; ++i)
        {
            u32 a = q.r32(av + 4 * i); auto it = want.find(base + i); bool fw = a >= d && a < d + ret.get_size(); std::ostringstream t; t << "ordinal " << base + i << ": ";
            if(it == want.end()) { CHECK(a == 0, "expreb.gap", t.str() << "unused slot is " << hx(a)); CHECK(!byord.count((u16)i), "expreb.names", t.str() << "named but unused"); continue; }
            CHECK(fw == it->second.fwd, "expreb.forward", t.str() << (fw ? "forwarded" : "not forwarded")); if(fw) CHECK_EQ(q.z(a), it->second.fname, "expreb.forward"); else CHECK_EQ(a, it->second.rva, "expreb.rva");
            CHECK(byord.count((u16)i) == it->second.named, "expreb.names", t.str() << "name lost or invented"); if(it->second.named) CHECK_EQ(byord[(u16)i], it->second.name, "expreb.name");
        }
    }
    catch(const OutOfRange&) { fail("expreb.decode", "the rebuilt directory runs out of the image"); }
    g.nontrivial();
    try
    {
        export_info i2; exported_functions_list x = get_exported_functions(*must_load(out, m.p64, "expreb.reload"), i2); CHECK_EQ(x.size(), want.size(), "expreb.reread"); CHECK_EQ(i2.get_name(), dll, "expreb.reread"); size_t k = 0;
        for(auto& w : want) { CHECK(x[k].get_ordinal() == w.first && x[k].has_name() == w.second.named && x[k].get_name() == w.second.name && x[k].is_forwarded() == w.second.fwd && x[k].get_forwarded_name() == w.second.fname && (w.second.fwd || x[k].get_rva() == w.second.rva), "expreb.reread", "function with ordinal " << w.first << " is read back differently"); ++k; }
    }
    catch(const pe_exception& e) { fail("expreb.reread", std::string("the rebuilt directory cannot be read back: ") + e.what()); }
}
const pbt::PropInfo pbt::prop_info = {"C11", "Export lists (any order, gaps, names, forwarders, duplicates) rebuilt into last, inner or new sections at any offset; the saved file is decoded by a reference reader and every other byte is compared. Non-trivial: rebuilt and decoded, or a refusal.", run, 60000, 2000000, 0, 0, 20};
