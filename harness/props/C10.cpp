// C10: the export reader returns exactly the functions an image exports.
#include "gen_pe.h"
using namespace ref;
struct F { u32 ord, rva; bool named, fwd; Str name, fname; u16 nameord; };

static void run(Gen& g)
{
    bool vast = throng(g, 5000), sparse = vast && g.flip(); Img m = host_img(g, (unsigned)g.range(1, 3), vast ? 200 : 3, -1, true, 0xfffff000ull); Placer p(g, m, true, true);
    u32 nf = (u32)(vast ? sparse ? g.range(0x8001, 0xffff) : g.range(1025, 1600) : g.chance(1, 60) ? g.range(50, 600) : g.small(14)); u32 base = (u32)(g.chance(1, 3) ? g.edge(0, 65535 - std::max<u32>(nf, 1)) : 1);
    if(g.chance(1, 20) && nf) base = 65536 - nf;
    std::vector<F> fs; std::set<Str> used; Str blob(40, 0); std::vector<std::pair<u32, u32> > fix; std::vector<u32> addr(nf, 0);
    std::vector<std::pair<u32, Str> > names;      // index, name
    std::vector<std::pair<u32, u32> > fwd_at;     // index, offset in blob
    for(u32 i = 0; i < nf; ++i)
    {
        if(g.chance(1, 6)) continue;
        F f; f.ord = base + i; f.named = sparse ? i % 4096 == 0 : g.chance(3, 4); f.fwd = sparse ? i % 128 == 0 : g.chance(1, 4); f.nameord = 0; f.rva = 0;
        if(f.named) { f.name = sym_name(g, 16); while(!used.insert(f.name).second) f.name += "_"; f.nameord = (u16)i; names.push_back(std::make_pair(i, f.name)); }
        if(f.fwd) { f.fname = g.name(1, 6) + "." + (g.flip() ? "#" + std::to_string(g.below(999)) : sym_name(g, 12)); fwd_at.push_back(std::make_pair(i, (u32)blob.size())); blob += f.fname + Str(1, 0); if(g.chance(1, 6)) blob += g.bytes((size_t)g.below(5)); }
        fs.push_back(f);
    }
    u32 dirsize = (u32)blob.size(); u32 dir = p.alloc(blob.size(), g.flip() ? 4 : 1); p.put(dir, blob);
    u32 tail = 0; if(g.chance(1, 4)) { tail = (u32)g.below(40); if((u64)dir + dirsize + tail > p.sec_at(dir).va + p.sec_at(dir).data.size()) tail = 0; } // the range may also cover other tables
    for(auto& x : fwd_at) addr[x.first] = dir + x.second;
    for(F& f : fs)
    {
        u32 i = f.ord - base; if(!f.fwd) { do { addr[i] = g.chance(1, 4) ? g.u32any() : g.chance(1, 8) ? dir + dirsize + tail : g.chance(1, 8) ? dir - 1 : 0x1000 + (u32)g.below(m.size_image); if(!addr[i]) addr[i] = 1; } while(addr[i] >= dir && addr[i] < dir + dirsize + tail); }
        f.rva = addr[i];
    }
    if(g.flip()) std::sort(names.begin(), names.end(), [](const std::pair<u32, Str>& a, const std::pair<u32, Str>& b) { return a.second < b.second; });
    if(g.chance(1, 4)) for(size_t n = (size_t)g.range(1, 3); n && names.size() < nf; --n)
    {   // further names of a function (its first one in the table counts), names of unused or absent slots
        u32 i = !fs.empty() && !g.chance(1, 4) ? g.pick(fs).ord - base : (u32)g.below(nf + 4); if(i > 0xffff) i = 0; Str nm = sym_name(g, 16); while(!used.insert(nm).second) nm += "_"; names.insert(names.begin() + (size_t)g.below(names.size() + 1), std::make_pair(i, nm)); g.label("several names for a slot, or a name for none");
    }
    for(F& f : fs) { f.named = false; for(auto& x : names) if(x.first == f.ord - base) { f.named = true; f.name = x.second; f.nameord = (u16)x.first; break; } }
    used.clear(); for(F& f : fs) if(f.named) used.insert(f.name);
    Str at, nt, ot; for(u32 a : addr) at += le<u32>(a);
    for(auto& x : names) { nt += le<u32>(p.placez(x.second)); ot += le<u16>((u16)x.first); }
    bool info_only = false, end_tables = false; bool no_tables = names.empty() && g.flip();
    u32 av = p.place(at + Str(nf ? 0 : 4, 0), 4), nv = no_tables ? 0 : p.place(nt + Str(nt.empty() ? 4 : 0, 0), 4), ov = no_tables ? 0 : p.place(ot + Str(ot.empty() ? 2 : 0, 0), 2); Str dll = sym_name(g, 20); u32 dn = p.placez(dll);
    if(names.empty() && !no_tables && g.flip()) { nv = p.end_at(nv); if(g.flip()) ov = p.end_at(ov); end_tables = true; g.label("tables of no names at the very end of a section"); }
    u32 nnames = (u32)names.size(), nfuncs = nf, chars = g.u32any(), ts = g.u32any(); u16 maj = g.u16any(), min = g.u16any(); Str why; u32 far_ = (u32)g.range(m.size_image + 0x100000ull, 0xfffffff0ull);
    u32 cut; if(g.chance(1, 6)) switch(g.below(13))
    {
    case 0: if(nf) { nnames = nf + 1 + (u32)g.below(5); why = "more names than functions"; } break;
    case 1: if(nf) { av = far_; why = "address table outside the image"; } break;
    case 2: if(nnames) { nv = far_; why = "name table outside the image"; } break;
    case 3: if(nnames) { ov = far_; why = "name ordinal table outside the image"; } break;
    case 4: if(!fs.empty()) { base = 0x10000 - (fs.back().ord - base) + (u32)g.below(8); why = "ordinals above 65535"; } break;
    case 5: { std::vector<u32> at1; for(F& x : fs) if(x.named) for(u32 k = 0; k < names.size(); ++k) if(names[k].first == x.ord - base) { at1.push_back(k); break; } if(!at1.empty()) { p.put(nv + 4 * g.pick(at1), le<u32>(far_)); why = "function name outside the image"; } break; }
    case 6: if(nf && !no_tables) { (g.flip() ? nv : ov) = 0; why = "one of the two name tables missing"; } break;
    case 7: if(nf) { nfuncs = (u32)(g.flip() ? g.range(0x10000, 0xffffffffull) : 0x3000); if((u64)nfuncs * 4 > p.end_at(av) - av) why = "address table longer than its section"; else nfuncs = nf; } break;
    case 8: if(p.open_text(cut)) { dn = cut; why = "unterminated library name"; info_only = true; } break;
    case 9: { std::vector<u32> at1; for(F& x : fs) if(x.named) for(u32 k = 0; k < names.size(); ++k) if(names[k].first == x.ord - base) { at1.push_back(k); break; } if(!at1.empty() && p.open_text(cut)) { p.put(nv + 4 * g.pick(at1), le<u32>(cut)); why = "unterminated function name"; } break; }
    case 10: if(!fwd_at.empty() && p.open_text(cut)) { p.put(av + 4 * g.pick(fwd_at).first, le<u32>(cut)); tail = (u32)(p.end_at(cut) - dir - dirsize); why = "unterminated forwarder"; } break;
    case 11: if(nnames) { if(g.flip()) nv = p.short_of(4 * nnames); else if(nnames > 0) ov = p.short_of(2 * nnames); why = "name tables longer than their section"; } break;
    default: if(nf) { av = 0; why = "no address table"; } break;
    }
    Str d(40, 0); p32(d, 0, chars); p32(d, 4, ts); p16(d, 8, maj); p16(d, 10, min); p32(d, 12, dn); p32(d, 16, base); p32(d, 20, nfuncs); p32(d, 24, nnames); p32(d, 28, av); p32(d, 32, nv); p32(d, 36, ov); p.put(dir, d);
    m.dirs[0] = {dir, dirsize + tail}; if(why.empty() && g.chance(1, 2)) p.trim(); bool has = true; if(g.chance(1, 30)) { m.dirs[0] = {0, 0}; has = false; why.clear(); }
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0);
    std::ostringstream o; o << describe(m) << " exports at " << hx(dir) << "+" << hx(dirsize + tail) << ": " << nf << " slots from " << base << ", " << fs.size() << " functions, " << names.size() << " names" << (why.empty() ? "" : ", " + why); g.note(o.str());
    Pe pe = must_load(f, m.p64, "export.load"); CHECK(pe->has_exports() == has, "export.has", "has_exports()");
    export_info info; exported_functions_list r, r2; bool t1 = throws_pe([&] { r = get_exported_functions(*pe, info); }), t2 = throws_pe([&] { r2 = get_exported_functions(*pe); });
    CHECK(t1 == !why.empty(), "export.accept", (t1 ? "a valid export directory was refused" : "accepted a directory with " + why)); CHECK(t1 == t2 || info_only, "export.overloads", "the two overloads disagree");
    if(t1) { g.label("refused: " + why); g.nontrivial(); return; }
    CHECK_EQ(r2.size(), r.size(), "export.overloads");
    if(!has) { CHECK(r.empty(), "export.none", "functions without an export directory"); return; }
    CHECK_EQ(info.get_name(), dll, "export.info"); CHECK_EQ(info.get_characteristics(), chars, "export.info"); CHECK_EQ(info.get_timestamp(), ts, "export.info"); CHECK_EQ(info.get_major_version(), maj, "export.info"); CHECK_EQ(info.get_minor_version(), min, "export.info"); CHECK_EQ(info.get_ordinal_base(), base, "export.info");
    CHECK_EQ(info.get_number_of_functions(), nf, "export.info"); CHECK_EQ(info.get_number_of_names(), nnames, "export.info"); CHECK_EQ(info.get_rva_of_functions(), av, "export.info"); CHECK_EQ(info.get_rva_of_names(), nv, "export.info"); CHECK_EQ(info.get_rva_of_name_ordinals(), ov, "export.info");
    CHECK_EQ(r.size(), fs.size(), "export.count"); if(!fs.empty()) g.nontrivial();
    u32 lo = 0xffff, hi = 0;
    for(size_t i = 0; i < fs.size(); ++i)
    {
        const F& w = fs[i]; const exported_function& x = r[i]; std::ostringstream s; s << "function " << i << " (ordinal " << w.ord << ")"; Str at_ = s.str(); lo = std::min(lo, w.ord); hi = std::max(hi, w.ord);
        CHECK_EQ((u32)x.get_ordinal(), w.ord, "export.ordinal"); CHECK_EQ(x.get_rva(), w.rva, "export.rva"); CHECK(x.has_name() == w.named, "export.named", at_ << ": has_name() is " << x.has_name());
        if(w.named) { CHECK_EQ(x.get_name(), w.name, "export.name"); CHECK_EQ(x.get_name_ordinal(), w.nameord, "export.name_ordinal"); }
        CHECK(x.is_forwarded() == w.fwd, "export.forwarded", at_ << (w.named ? " named" : " unnamed") << ": is_forwarded() is " << x.is_forwarded()); if(w.fwd) CHECK_EQ(x.get_forwarded_name(), w.fname, "export.forward_name");
        CHECK(exported_ordinal_exists((u16)w.ord, r), "export.helper", at_ << " not found by ordinal"); if(w.named) CHECK(exported_name_exists(w.name, r), "export.helper", at_ << " not found by name");
    }
    { auto none = get_export_ordinal_limits(exported_functions_list()); CHECK(none.first == 0 && none.second == 0, "export.limits", "limits of an empty list"); }
    if(!fs.empty()) { auto l = get_export_ordinal_limits(r); CHECK(l.first == lo && l.second == hi, "export.limits", "ordinal limits " << l.first << ".." << l.second); }
    { u32 q = (u32)g.below(65536); bool in = false; for(F& x : fs) in |= x.ord == q; CHECK(exported_ordinal_exists((u16)q, r) == in, "export.helper", "exported_ordinal_exists(" << q << ")"); Str nm = g.name(1, 2); CHECK(exported_name_exists(nm, r) == (used.count(nm) != 0), "export.helper", "exported_name_exists(" << nm << ")"); CHECK(!exported_name_exists("", r), "export.helper", "a function with an empty name"); }
}
const pbt::PropInfo pbt::prop_info = {"C10", "Images whose export tables (up to 600 slots with gaps, names in any order, forwarders with and without names, any ordinal base) are laid out by the reference writer, and directories with one corruption. Non-trivial: at least one function, or a corruption.", run, 80000, 3000000, 0, 0, 20};
