// C24: exception directories and .NET headers are read exactly.
#include "gen_pe.h"
using namespace ref;
struct Fn { u32 b = 0, e = 0, u = 0; u8 ver = 0, flags = 0, prolog = 0, codes = 0, reg = 0, off = 0; };
static u64 end_of(const Img& m, size_t k) { return (u64)m.secs[k].va + up(m.secs[k].vsize, m.salign); }
static void except(Gen& g)
{
    size_t fns = throng(g) ? (size_t)g.range(5400, 8000) : crowd(g, 12, 500); Img m = host_img(g, (unsigned)g.range(1, 3), fns > 500 ? 256 : fns > 12 ? 32 : 2, -1, false, 0xfffff000ull); Placer p(g, m, true, true); std::vector<Fn> v(fns); Str why;
    // puts a structure anywhere, or against the end of a section
    auto put = [&](const Str& d, u32 al) -> u32 { size_t k = (size_t)g.below(m.secs.size()); if(d.empty() || !g.chance(1, 5) || p.free_[k].second != end_of(m, k) || p.free_[k].second - p.free_[k].first < d.size() + 300) return p.place(d, al); u32 a = (u32)((end_of(m, k) - d.size()) / al * al); p.free_[k].second = a; p.put(a, d); return a; };
    std::vector<u32> pool;
    for(size_t i = 0; i < v.size(); ++i)
    {
        Fn& f = v[i]; f.b = g.chance(1, 6) ? (u32)g.edge(1, 0xffffffff) : 0x1000 + (u32)i * 0x40; f.e = g.chance(1, 8) ? f.b : (u32)g.edge(f.b, 0xffffffff);
        f.ver = (u8)g.below(8); f.flags = (u8)g.below(32); f.prolog = (u8)g.below(256); f.codes = g.chance(1, 4) ? 0 : (u8)g.below(9); f.reg = (u8)g.below(16); f.off = (u8)g.below(16);
        Str d = Str(1, (char)(f.ver | f.flags << 3)) + Str(1, (char)f.prolog) + Str(1, (char)f.codes) + Str(1, (char)(f.reg | f.off << 4)) + g.bytes(((f.codes + 1) & ~1) * 2);
        if(i && g.chance(1, 5)) { const Fn& o = v[(size_t)g.below(i)]; f.ver = o.ver; f.flags = o.flags; f.prolog = o.prolog; f.codes = o.codes; f.reg = o.reg; f.off = o.off; f.u = o.u; } else f.u = put(d, g.flip() ? 4 : 1);
    }
    if(!v.empty() && why.empty()) switch(g.weighted({10, 1, 1})) { case 1: { Fn& f = v[(size_t)g.below(v.size())]; if(f.b == 1) break; f.e = (u32)g.edge(0, f.b - 1); why = "function which ends before it begins"; break; } case 2: { size_t k = m.secs.size() - 1; v[(size_t)g.below(v.size())].u = (u32)(g.flip() ? end_of(m, k) - g.range(1, 3) : g.edge(end_of(m, k), 0xffffffff)); why = "unwind information outside the image"; break; } default: break; }
    Str d; for(Fn& f : v) d += le<u32>(f.b) + le<u32>(f.e) + le<u32>(f.u); u32 size = (u32)d.size(); size_t seen = v.size(); bool has = !g.chance(1, 20);
    // an entry without an address ends the table early; whatever follows the announced size is not part of it
    if(!v.empty() && why.empty() && g.chance(1, 8)) { size_t at = (size_t)g.below(v.size()); p32(d, (u32)at * 12, 0); seen = at; g.label("ended by a null entry"); }
    if(g.chance(1, 3)) size += (u32)g.below(12), d += g.bytes(12); else if(g.chance(1, 2)) { d += le<u32>((u32)g.range(1, 0xffff)) + g.bytes(8); g.label("data follows the table"); }
    u32 rva; if(d.size() < 12) d.resize(12, 0);
    if(g.chance(1, 12) && why.empty()) { size_t k = m.secs.size() - 1; u32 room = (u32)g.range(1, 11) & ~3u; if(!room) room = 4; if(p.free_[k].second == end_of(m, k) && p.free_[k].second - p.free_[k].first > 20) { rva = (u32)end_of(m, k) - room; p.free_[k].second = rva; p.put(rva, d.substr(0, room)); why = "table cut off at the end of the section"; size = (u32)g.range(12, 60); } else rva = put(d, 4); }
    else rva = put(d, 4);
    if(why.empty() && g.chance(1, 16)) { u32 r = p.place(d, 4); rva = r + (u32)g.range(1, 3); why = "unaligned table"; }
   
    m.dirs[3] = {has ? rva : 0, size}; bool mem = m.size_image < 0x1000000 && g.chance(1, 4); Str file = write(m, mem); if(mem) file.resize(m.size_image, 0); g.note("exception directory at " + hx(rva) + " size " + hx(size) + ", " + std::to_string(v.size()) + " functions" + (why.empty() ? "" : ", " + why) + "; " + describe(m)); for(Fn& f : v) g.note(" " + hx(f.b) + ".." + hx(f.e) + " unwind " + hx(f.u));
    Pe pe = must_load(file, m.p64, "except.load", mem); CHECK_EQ(pe->has_exception_directory(), has, "except.has"); exception_entry_list l; bool thr = throws_pe([&] { l = get_exception_directory_data(*pe); });
    if(!has) { CHECK(!thr && l.empty(), "except.none", "functions without a directory"); return; }
    if(!v.empty()) g.nontrivial(); CHECK(thr == !why.empty(), "except.accept", (thr ? Str("a valid exception directory was refused") : "accepted: " + why)); if(thr) { g.label("refused: " + why); return; }
    CHECK_EQ(l.size(), seen, "except.count");
    for(size_t i = 0; i < seen; ++i)
    {
        const exception_entry& x = l[i]; const Fn& f = v[i]; CHECK_EQ(x.get_begin_address(), f.b, "except.entry"); CHECK_EQ(x.get_end_address(), f.e, "except.entry"); CHECK_EQ(x.get_unwind_info_address(), f.u, "except.entry"); CHECK_EQ(x.get_unwind_info_version(), f.ver, "except.entry"); CHECK_EQ(x.get_flags(), f.flags, "except.entry");
        CHECK_EQ(x.has_exception_handler(), (f.flags & 1) != 0, "except.entry"); CHECK_EQ(x.has_termination_handler(), (f.flags & 2) != 0, "except.entry"); CHECK_EQ(x.is_chaininfo(), (f.flags & 4) != 0, "except.entry"); CHECK_EQ(x.get_size_of_prolog(), f.prolog, "except.entry"); CHECK_EQ(x.get_number_of_unwind_slots(), f.codes, "except.entry");
        CHECK_EQ(x.uses_frame_pointer(), f.reg != 0, "except.entry"); CHECK_EQ(x.get_frame_pointer_register_number(), f.reg, "except.entry"); CHECK_EQ(x.get_scaled_rsp_offset(), f.off, "except.entry");
    }
    g.label("exception directory read");
}
static void dotnet(Gen& g)
{
    Img m = host_img(g, (unsigned)g.range(1, 3), 2, -1, false, 0xfffff000ull); Placer p(g, m, true, true); u32 w[18]; for(u32& x : w) x = g.u32any(); if(g.flip()) w[4] = (u32)g.below(64); w[0] = g.flip() ? 72 : w[0]; bool tail = g.chance(1, 3); if(tail) for(size_t z = (size_t)g.range(1, 18); z < 18; ++z) w[z] = 0;
    Str d; for(u32 x : w) d += le<u32>(x); bool has = !g.chance(1, 10), bad = false; u32 rva; size_t k = (size_t)g.below(m.secs.size()); Sec& s = m.secs[k];
    switch(g.weighted({6, 2, 1, 1}))
    {
    case 1: rva = (u32)end_of(m, k) - 72; if(rva < p.free_[k].first) g.discard(); p.put(rva, d); g.label("ends with its section"); break;
    case 2: { u32 c = (u32)g.range(1, 71); rva = (u32)end_of(m, k) - c; if(rva < p.free_[k].first) g.discard(); p.put(rva, d.substr(0, c)); bad = true; break; }
    case 3: rva = (u32)g.edge(end_of(m, m.secs.size() - 1), 0xffffffff); bad = true; break;
    default: rva = p.place(d, g.flip() ? 4 : 1); break;
    }
    if(tail) { p.trim(); if(s.data.size() < s.vsize && rva - s.va < s.data.size() + 72 && rva - s.va + 72 > s.data.size()) g.label("partly in the zero-filled tail"); } (void)s; m.dirs[14] = {has ? rva : 0, g.flip() ? 72 : g.u32any()}; bool mem = m.size_image < 0x1000000 && g.chance(1, 4); Str file = write(m, mem); if(mem) file.resize(m.size_image, 0); g.note(".NET header at " + hx(rva) + (bad ? " (outside)" : "") + " flags " + hx(w[4]) + "; " + describe(m));
    Pe pe = must_load(file, m.p64, "dotnet.load", mem); CHECK_EQ(pe->is_dotnet(), has, "dotnet.has"); basic_dotnet_info i; CHECK(!i.get_flags() && !i.get_rva_of_metadata() && !i.get_major_runtime_version() && !i.get_entry_point_rva_or_token(), "dotnet.fresh", "a fresh object is not empty"); bool thr = throws_pe([&] { i = get_basic_dotnet_info(*pe); });
    g.nontrivial(); CHECK_EQ(thr, !has || bad, "dotnet.accept"); if(thr) { g.label("no .NET header"); return; }
    CHECK_EQ(i.get_major_runtime_version(), (u16)w[1], "dotnet.field"); CHECK_EQ(i.get_minor_runtime_version(), (u16)(w[1] >> 16), "dotnet.field"); CHECK_EQ(i.get_rva_of_metadata(), w[2], "dotnet.field"); CHECK_EQ(i.get_size_of_metadata(), w[3], "dotnet.field"); CHECK_EQ(i.get_flags(), w[4], "dotnet.field");
    CHECK_EQ(i.is_il_only(), (w[4] & 1) != 0, "dotnet.flag"); CHECK_EQ(i.is_32bit_required(), (w[4] & 2) != 0, "dotnet.flag"); CHECK_EQ(i.is_il_library(), (w[4] & 4) != 0, "dotnet.flag"); CHECK_EQ(i.is_native_entry_point(), (w[4] & 16) != 0, "dotnet.flag"); CHECK_EQ(i.get_entry_point_rva_or_token(), w[5], "dotnet.field");
    u32 got[] = {i.get_rva_of_resources(), i.get_size_of_resources(), i.get_rva_of_strong_name_signature(), i.get_size_of_strong_name_signature(), i.get_rva_of_code_manager_table(), i.get_size_of_code_manager_table(), i.get_rva_of_vtable_fixups(), i.get_size_of_vtable_fixups(), i.get_rva_of_export_address_table_jumps(), i.get_size_of_export_address_table_jumps(), i.get_rva_of_managed_native_header(), i.get_size_of_managed_native_header()};
    for(int n = 0; n < 12; ++n) CHECK_EQ(got[n], w[6 + n], "dotnet.field"); g.label(".NET header read");
}
static void run(Gen& g) { if(g.weighted({2, 1})) dotnet(g); else except(g); }
const pbt::PropInfo pbt::prop_info = {"C24", "Exception directories of 0..12 functions with their unwind information (shared, anywhere, against the end of a section, followed by unrelated data, null entries, wrong order, cut off, unaligned) and .NET headers with every field set, written by the reference writer and read. Non-trivial: a function table, or a .NET case.", run, 120000, 4000000, 0, 0, 20};
