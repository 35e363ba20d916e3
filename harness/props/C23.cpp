// C23: debug directories and their CodeView, misc and COFF records are read exactly; records which contradict themselves are refused.
#include "gen_pe.h"
using namespace ref;
typedef debug_info DI;
struct Sym { u32 cls = 0, idx = 0, sec = 0, rva = 0; u16 type = 0; bool file = false; Str name; };
struct Ent { u32 ch = 0, ts = 0, type = 0, size = 0, rva = 0, ptr = 0; u16 maj = 0, min = 0; DI::advanced_info_type adv = DI::advanced_info_none; Str guid, name; u32 age = 0, sig = 0, dt = 0; bool uni = false; std::wstring wname; std::vector<u32> hdr; std::vector<Sym> syms; };
// builds the record of an entry; why: non-empty if the library must refuse it
static Str record(Gen& g, Ent& e, Str& why, bool calm, bool vast)
{
    bool bad = !calm && g.chance(1, 8); Str d;
    if(e.type == 2)
    {
        unsigned k = g.weighted({5, 3, 1, 1, 1, 1}); e.age = g.u32any(); e.name = g.chance(1, 6) ? Str() : sym_name(g);
        if(k == 0) { e.adv = DI::advanced_info_pdb_7_0; e.guid = g.bytes(16); d = "RSDS" + e.guid + le<u32>(e.age) + e.name + Str(1, 0); if(bad) { d.resize(g.flip() ? d.size() - 1 : (size_t)g.range(8, d.size() - 1)); why = "cut off PDB 7.0 record"; } }
        else if(k == 1) { e.adv = DI::advanced_info_pdb_2_0; e.sig = g.u32any(); d = "NB10" + le<u32>(g.u32any()) + le<u32>(e.sig) + le<u32>(e.age) + e.name + Str(1, 0); if(bad) { d.resize(g.flip() ? d.size() - 1 : (size_t)g.range(8, d.size() - 1)); why = "cut off PDB 2.0 record"; } }
        else { e.adv = k == 2 ? DI::advanced_info_codeview_4_0 : k == 3 ? DI::advanced_info_codeview_5_0 : k == 4 ? DI::advanced_info_codeview : DI::advanced_info_none; d = Str(k == 2 ? "NB09" : k == 3 ? "NB11" : k == 4 ? "NB05" : g.pick({"XXXX", "NB12", "NB00", "NB06", "RSDT", "nb10", "MB09", "NC11"})) + le<u32>(g.u32any()); if(bad) { d.resize((size_t)g.range(1, 7)); why = "cut off CodeView record"; } }
        if(why.empty() && g.chance(1, 3)) d += g.bytes((size_t)g.below(20));
    }
    else if(e.type == 4)
    {
        e.adv = DI::advanced_info_misc; e.dt = g.flip() ? 1 : g.u32any(); e.uni = g.flip(); Str body; size_t n = g.chance(1, 12) ? 0 : (size_t)g.range(1, 40); bool none = !n;
        if(e.uni) { for(size_t i = 0; i < n; ++i) { u16 c = (u16)g.range(1, g.chance(1, 4) ? 0xd7ff : 0x7f); e.wname += (wchar_t)c; body += le<u16>(c); } } else { if(n) body = sym_name(g); e.name = body; }
        if(g.flip() && !none) body += Str((size_t)g.range(1, 6) * 2, 0); if(e.uni && g.chance(1, 6)) body += Str(1, 0);
        u32 len = 12 + (u32)body.size(); u8 uni = e.uni ? (u8)g.range(1, 255) : 0; d = le<u32>(e.dt) + le<u32>(len) + Str(1, (char)uni) + g.bytes(3) + body; if(body.empty() && !bad) d += g.bytes((size_t)g.range(1, 9));
        if(bad) { switch(g.below(3)) { case 0: d.resize((size_t)g.range(1, d.size() - 1)); why = "cut off misc record"; break; case 1: p32(d, 4, g.flip() ? (u32)d.size() + 1 + (u32)g.below(50) : (u32)g.edge(d.size() + 1, 0xffffffff)); why = "misc record longer than its data"; break; default: p32(d, 4, (u32)g.below(12)); why = "misc record shorter than its header"; } }
        else if(g.chance(1, 3)) d += g.bytes((size_t)g.below(20));
    }
    else
    {
        e.adv = DI::advanced_info_coff; Str strs(4, 0), tab; std::vector<Str> recs; u32 cnt = 0, top = 0; auto sym = [&](const Str& nm, u32 val, u16 sec, u16 type, u8 cls, u8 aux) { top = cnt; tab += nm + le<u32>(val) + le<u16>(sec) + le<u16>(type) + Str(1, (char)cls) + Str(1, (char)aux); ++cnt; };
        for(size_t n = vast ? (size_t)g.range(4097, 7000) : crowd(g, 7); n; --n)
        {
            Sym s; s.idx = cnt; Str nm = g.chance(1, 3) ? g.name(8, 8) : g.name(1, 8), lname = sym_name(g); bool lng = g.chance(1, 3); u32 val = g.u32any(); u16 type = g.u16any(); nm.resize(8, 0); Str full = nm.c_str(); full = full.substr(0, 8);
            switch(g.weighted({3, 3, 3, 3}))
            {
            case 0: { u8 aux = (u8)g.range(1, 3); Str f = sym_name(g, 18 * aux).substr(0, 18 * aux); if(g.chance(1, 10)) { aux = 0; f.clear(); } sym(Str(".file\0\0\0", 8), g.u32any(), g.u16any(), type, 103, aux); Str pad = f; pad.resize(18 * aux, 0); tab += pad; cnt += aux; s.cls = 103; s.type = type; s.file = true; s.name = f; e.syms.push_back(s); break; }
            case 1: case 2: { bool fn = g.flip(); u16 sec = fn ? (u16)g.edge(1, 0x7fff) : 1; u16 ty = fn ? (u16)((type & ~0x30) | 0x20) : type; u8 cls = fn ? 2 : 3, aux = fn ? (u8)g.below(3) : 0; if(lng) { nm = Str(4, 0) + le<u32>((u32)strs.size()); full = lname; strs += lname + Str(1, 0); } sym(nm, val, sec, ty, cls, aux); tab += g.bytes(18 * aux); cnt += aux; s.cls = cls; s.type = ty; s.sec = sec; s.rva = val; s.name = full; e.syms.push_back(s); break; }
            default:
                { // symbols the list leaves out, together with their auxiliary records
                    static const u8 other[] = {1, 4, 6, 100, 101, 105, 255}; u8 aux = (u8)g.below(4), cls; u16 sec = g.u16any(), ty = type; switch(g.below(3)) { case 0: cls = 3; if(!aux && sec == 1) sec = 2; break; case 1: cls = 2; if((ty & 0x30) == 0x20) { if(g.flip()) sec = (u16)(0x10000 - g.below(3)); else ty = (u16)((ty & ~0x30) | (g.flip() ? 0x30 : 0)); } break; default: cls = other[g.below(7)]; }
                    sym(nm, val, sec, ty, cls, aux); Str a = g.bytes(18 * aux); for(u8 k = 0; k < aux; ++k) if(g.flip()) { Str x = Str("auxil\0\0\0", 8) + le<u32>(7) + le<u16>(1) + le<u16>(0x20) + Str(1, (char)(g.flip() ? 3 : 2)) + Str(1, 0); a.replace(18 * k, 18, x); } tab += a; cnt += aux; } }
        }
        u32 lva = 32 + (g.flip() ? 0 : (u32)g.below(40)); e.hdr = {cnt, lva, g.u32any(), g.u32any(), g.u32any(), g.u32any(), g.u32any(), g.u32any()}; for(u32 v : e.hdr) d += le<u32>(v); d += Str(lva - 32, 'x') + tab; size_t strat = d.size(); p32(strs, 0, (u32)strs.size()); if(strs.size() > 4 || g.flip()) d += strs; else if(g.flip()) d += g.bytes((size_t)g.below(4));
        if(bad)
        {
            Sym* last = nullptr; for(Sym& s : e.syms) last = &s;
            switch(g.below(5))
            {
            case 4: if(cnt) { u32 left = cnt - 1 - top; d[lva + 18 * top + 17] = (char)(u8)(g.flip() ? left + 1 : g.edge(left + 1, 255)); if(g.flip()) d += g.bytes((size_t)g.below(300)); why = "auxiliary COFF records beyond the symbols"; } break;
            case 0: if(strat > 1) { d.resize((size_t)g.below(g.flip() && strat > 32 ? strat - 1 : std::min<size_t>(strat, 32))); if(d.empty()) d = "x"; why = d.size() < strat ? "cut off COFF symbols" : ""; } break;
            case 1: if(g.chance(1, 4)) { if(g.flip()) p32(d, 0, cnt + 0x80000000u); else { p32(d, 0, 238609293); u32 z = 22 + (u32)g.below(d.size() + 1); p32(d, 4, z); } why = "more COFF symbols than an image can have"; break; } p32(d, 0, g.flip() ? (u32)g.edge(d.size() / 18 + 1, 0xffffffff) : cnt + 1 + (u32)(strs.size() / 18)); if((u64)g32(d, 0) * 18 + lva > d.size()) why = "more COFF symbols than data"; else g.discard(); break;
            case 2: p32(d, 4, (u32)g.edge(d.size() + 1, 0xffffffff)); why = "COFF symbols outside the data"; break;
            default: if(last && !last->file && g32(d, lva + 18 * last->idx) == 0 && strs.size() > 4) { if(g.flip()) { d.resize(d.size() - 1); if(d.back()) why = "COFF name without a terminator"; else g.discard(); if(last->name != Str(d, d.size() - last->name.size())) g.discard(); } else { p32(d, lva + 18 * last->idx + 4, (u32)g.edge(strs.size(), 0xffffffff)); why = "COFF name outside the data"; } } break;
            }
        }
    }
    return d;
}
static void check(const DI& i, const Ent& e, bool adv, const char* sig)
{
    CHECK_EQ(i.get_characteristics(), e.ch, sig); CHECK_EQ(i.get_time_stamp(), e.ts, sig); CHECK_EQ(i.get_major_version(), e.maj, sig); CHECK_EQ(i.get_minor_version(), e.min, sig); CHECK_EQ(i.get_type_raw(), e.type, sig); CHECK_EQ(i.get_size_of_data(), e.size, sig); CHECK_EQ(i.get_rva_of_raw_data(), e.rva, sig); CHECK_EQ(i.get_pointer_to_raw_data(), e.ptr, sig);
    static const DI::debug_info_type T[] = {DI::debug_type_unknown, DI::debug_type_coff, DI::debug_type_codeview, DI::debug_type_fpo, DI::debug_type_misc, DI::debug_type_exception, DI::debug_type_fixup, DI::debug_type_omap_to_src, DI::debug_type_omap_from_src, DI::debug_type_borland, DI::debug_type_reserved10, DI::debug_type_clsid};
    CHECK_EQ((int)i.get_type(), (int)(e.type < 12 ? T[e.type] : DI::debug_type_unknown), sig); auto a = adv ? e.adv : DI::advanced_info_none; CHECK_EQ((int)i.get_advanced_info_type(), (int)a, sig);
    bool r7 = throws_pe([&] { i.get_advanced_debug_info<pdb_7_0_info>(); }), r2 = throws_pe([&] { i.get_advanced_debug_info<pdb_2_0_info>(); }), rm = throws_pe([&] { i.get_advanced_debug_info<misc_debug_info>(); }), rc = throws_pe([&] { i.get_advanced_debug_info<coff_debug_info>(); });
    CHECK(r7 == (a != DI::advanced_info_pdb_7_0) && r2 == (a != DI::advanced_info_pdb_2_0) && rm == (a != DI::advanced_info_misc) && rc == (a != DI::advanced_info_coff), sig, "the wrong kind of information is available");
    if(a == DI::advanced_info_pdb_7_0) { auto p = i.get_advanced_debug_info<pdb_7_0_info>(); auto gu = p.get_guid(); CHECK(!memcmp(&gu, e.guid.data(), 16), sig, "GUID differs"); CHECK_EQ(p.get_age(), e.age, sig); CHECK_EQ(p.get_pdb_file_name(), e.name, sig); }
    else if(a == DI::advanced_info_pdb_2_0) { auto p = i.get_advanced_debug_info<pdb_2_0_info>(); CHECK_EQ(p.get_signature(), e.sig, sig); CHECK_EQ(p.get_age(), e.age, sig); CHECK_EQ(p.get_pdb_file_name(), e.name, sig); }
    else if(a == DI::advanced_info_misc) { auto p = i.get_advanced_debug_info<misc_debug_info>(); CHECK_EQ(p.get_data_type(), e.dt, sig); CHECK_EQ(p.is_exe_name(), e.dt == 1, sig); CHECK_EQ(p.is_unicode(), e.uni, sig); CHECK_EQ(p.get_data_ansi(), e.uni ? Str() : e.name, sig); CHECK(p.get_data_unicode() == (e.uni ? e.wname : std::wstring()), sig, "Unicode data differs"); }
    else if(a == DI::advanced_info_coff)
    {
        auto p = i.get_advanced_debug_info<coff_debug_info>(); CHECK_EQ(p.get_number_of_symbols(), e.hdr[0], sig); CHECK_EQ(p.get_lva_to_first_symbol(), e.hdr[1], sig); CHECK_EQ(p.get_number_of_line_numbers(), e.hdr[2], sig); CHECK_EQ(p.get_lva_to_first_line_number(), e.hdr[3], sig); CHECK_EQ(p.get_rva_to_first_byte_of_code(), e.hdr[4], sig); CHECK_EQ(p.get_rva_to_last_byte_of_code(), e.hdr[5], sig); CHECK_EQ(p.get_rva_to_first_byte_of_data(), e.hdr[6], sig); CHECK_EQ(p.get_rva_to_last_byte_of_data(), e.hdr[7], sig);
        auto& l = p.get_symbols(); CHECK(l.size() == e.syms.size(), sig, "got " << l.size() << " COFF symbols, expected " << e.syms.size());
        for(size_t k = 0; k < l.size(); ++k) { const Sym& s = e.syms[k]; CHECK_EQ(l[k].get_symbol(), s.name, sig); CHECK_EQ(l[k].get_index(), s.idx, sig); CHECK_EQ(l[k].get_storage_class(), s.cls, sig); CHECK_EQ(l[k].get_type(), s.type, sig); CHECK_EQ(l[k].get_section_number(), s.sec, sig); CHECK_EQ(l[k].get_rva(), s.rva, sig); CHECK_EQ(l[k].is_file(), s.file, sig); }
    }
}
static void run(Gen& g)
{
    bool vast = throng(g), long_table = vast && g.flip(); Img m = host_img(g, (unsigned)g.range(1, 2), vast ? 128 : 3, -1, true, 0xfffff000ull); Placer p(g, m, true, true); std::vector<Ent> v(long_table ? (size_t)g.range(257, 900) : vast ? (size_t)g.range(1, 2) : crowd(g, 5, 60)); Str why, raw; std::vector<Str> recs; u32 eof = 0; for(Sec& s : m.secs) eof = s.rawptr + s.rawsize;
    bool dbg = !g.chance(1, 12);
    for(Ent& e : v)
    {
        e.ch = g.u32any(); e.ts = g.u32any(); e.maj = g.u16any(); e.min = g.u16any(); e.type = g.chance(1, 5) ? (g.flip() ? (u32)g.below(13) : g.u32any()) : g.pick({2u, 2u, 1u, 4u}); bool known = e.type == 1 || e.type == 2 || e.type == 4; Str d, w;
        if(vast && !long_table) { e.type = 1; known = true; } if(known) d = record(g, e, w, v.size() > 5, vast && !long_table); else d = g.bytes((size_t)g.range(1, 40)); e.size = (u32)d.size();
        if(!w.empty()) { if(why.empty() && dbg) why = w; else if(!why.empty()) {} }
        if(g.chance(1, 3)) { e.ptr = eof + (u32)m.overlay.size(); m.overlay += d; e.rva = g.chance(1, 4) ? g.u32any() : 0; } else { e.rva = p.place(d, g.flip() ? 4 : 1); Sec& s = p.sec_at(e.rva); e.ptr = s.rawptr + e.rva - s.va; if(g.chance(1, 6)) e.rva = 0; }
        if(w.empty() && g.chance(1, 12)) { e.size = 0; e.adv = DI::advanced_info_none; }
    }
    if(why.empty() && g.chance(1, 10))
    {   // the last entry announces data which ends beyond the file: it is reported without details
        Ent e; e.ch = g.u32any(); e.ts = g.u32any(); e.maj = g.u16any(); e.min = g.u16any(); e.type = g.pick({1u, 2u, 4u}); u32 left = (u32)g.edge(0, std::min<size_t>(200, eof + m.overlay.size() - 1)); e.ptr = eof + (u32)m.overlay.size() - left; e.size = g.flip() ? left + (u32)g.range(1, 40) : (u32)g.edge(left + 1, 0xffffffff); e.rva = g.flip() ? g.u32any() : 0; e.adv = DI::advanced_info_none; for(Ent& x : v) if(x.ptr == e.ptr) g.discard(); v.push_back(e); g.label("data beyond the file");
    }
    Str d; for(Ent& e : v) d += le<u32>(e.ch) + le<u32>(e.ts) + le<u16>(e.maj) + le<u16>(e.min) + le<u32>(e.type) + le<u32>(e.size) + le<u32>(e.rva) + le<u32>(e.ptr);
    u32 size = (u32)d.size(); size_t seen = v.size(); Str after; unsigned term = g.weighted({3, 2, 2}); // the list ends by its size, by an entry without a file pointer, or by both
    if(term == 1) { after = Str(28, 0); if(g.flip()) { after = g.bytes(24) + Str(4, 0); } size += 28 + (g.flip() ? (u32)g.below(100) : 0); } else if(term == 2) { if(g.flip()) after = Str(24, 1) + le<u32>(0x200); }
    if(v.empty() && term != 1) { size = 0; after = g.bytes(28); }
    if(size && g.chance(1, 8) && term != 1) { seen = (size_t)g.below(v.size() + 1); size = (u32)seen * 28; } bool whole = true; for(size_t k = seen; k < v.size(); ++k) whole = false; (void)whole;
    Str all = d + after; bool has = !g.chance(1, 20); u32 rva; size_t k = (size_t)g.below(m.secs.size()); u64 end = m.secs[k].va + up(m.secs[k].vsize, m.salign);
    bool tail = g.chance(1, 4) && p.free_[k].second == end && p.free_[k].second - p.free_[k].first > all.size() + 64 && !all.empty(); if(tail) { rva = (u32)(end - all.size()); p.put(rva, all); g.label("against the end of the section"); } else { rva = p.place(all + Str(28, 0), g.flip() ? 4 : 1); }
    if(tail && g.chance(1, 4) && !v.empty() && seen == v.size() && term == 0 && why.empty()) { u32 cut = (u32)g.range(1, 27); Str z = all.substr(0, all.size() - cut); rva = (u32)(end - z.size()); p.put(rva, z); why = "directory cut off"; }
    if(term == 1 && !v.empty() && seen == v.size() && why.empty() && g.chance(1, 15)) { size = (u32)g.edge((u32)-rva, 0xffffffff); why = "directory beyond the address space"; }
    if(why.size() && why != "directory cut off") { bool used = false; size_t q = 0; for(Ent& e : v) { if(q++ >= seen) break; (void)e; } used = seen == v.size(); if(!used) g.discard(); }
    if(has) m.dirs[6] = {rva, size}; std::ostringstream o; o << (m.p64 ? "PE32+" : "PE32") << " debug directory at " << hx(rva) << "+" << hx(size) << ":"; for(Ent& e : v) o << " type " << e.type << " " << e.size << " bytes at " << hx(e.ptr) << " adv " << e.adv << ";"; o << " read debug data=" << dbg << " " << why; g.note(o.str());
    Str f = write(m); Pe pe; try { pe = load(f, m.p64, false, dbg); } catch(const pe_exception& e) { fail("debug.load", e.what()); } CHECK_EQ(pe->has_debug(), has, "debug.has"); debug_info_list l; bool thr = throws_pe([&] { l = get_debug_information(*pe); });
    if(!has) { CHECK(!thr && l.empty(), "debug.none", "debug information without a directory"); return; }
    CHECK(thr == !why.empty(), "debug.accept", (thr ? Str("a valid debug directory was refused") : "accepted: " + why)); if(!v.empty()) g.nontrivial(); if(thr) { g.label("refused: " + why); return; }
    CHECK_EQ(l.size(), seen, "debug.count"); for(size_t i = 0; i < seen; ++i) { check(l[i], v[i], dbg, "debug.entry"); g.label(v[i].adv == DI::advanced_info_coff ? "COFF" : v[i].adv == DI::advanced_info_misc ? "misc" : v[i].adv ? "CodeView" : "plain"); }
    // an image copied or assigned from this one has the same information
    if(g.chance(1, 3)) { Pe other; if(g.flip()) other.reset(new pe_base(*pe)); else { other = load(write(Img(m)), m.p64, false, g.flip()); *other = *pe; } pe.reset(); debug_info_list o; CHECK(!throws_pe([&] { o = get_debug_information(*other); }) && o.size() == seen, "debug.copied-image", "a copy of the image has other debug information"); for(size_t i = 0; i < seen; ++i) check(o[i], v[i], dbg, "debug.copied-image"); g.label("copied image"); }
    // copies are equal and independent; assignment in any order, also to itself, keeps the value
    if(seen) { debug_info_list c = l; for(size_t n = (size_t)g.small(6); n; --n) { size_t a = (size_t)g.below(seen), b = (size_t)g.below(seen); DI& x = c[a]; const DI& y = c[b]; x = y; v[a] = Ent(v[b]); check(c[a], v[b], dbg, "debug.assign"); } l.clear(); for(size_t i = 0; i < seen; ++i) check(DI(c[i]), v[i], dbg, "debug.copy"); }
}
const pbt::PropInfo pbt::prop_info = {"C23", "Debug directories of 0..5 entries (CodeView PDB 7.0/2.0 and others, misc ANSI/Unicode, COFF symbol tables with auxiliary records and long names, unknown types) written by the reference writer in sections or overlay, with cut off and contradictory records, read and copied. Non-trivial: at least one entry.", run, 120000, 4000000, 0, 0, 20};
