// C28: several directories of one image rebuilt, removed, copied, realigned, rebased and saved in any order stay intact together.
#include "gen_pe.h"
#include "pe_bliss_resources.h"
#include <map>
using namespace ref;
enum { EXP = 0, IMP = 1, RES = 2, REL = 5, TLS = 9, CFG = 10, BND = 11 };
static const char* dname(int d) { return d == EXP ? "exports" : d == IMP ? "imports" : d == RES ? "resources" : d == REL ? "relocations" : d == TLS ? "TLS" : d == CFG ? "load config" : "bound imports"; }
struct Imp { Str lib; struct F { bool named; Str name; u16 v; bool operator==(const F& o) const { return named == o.named && name == o.name && v == o.v; } }; std::vector<F> f; bool operator==(const Imp& o) const { return lib == o.lib && f == o.f; } };
struct Exp { u16 ord; u32 rva; Str name, fwd; bool operator==(const Exp& o) const { return ord == o.ord && rva == o.rva && name == o.name && fwd == o.fwd; } };
struct Model
{
    std::vector<Imp> imp; Str dll; std::vector<Exp> exp;
    std::vector<std::pair<u32, std::vector<u16>>> rel;                                  // page, offsets
    std::map<Str, Str> res;                                                             // path of names and numbers -> data
    Str data; std::vector<u32> cbs; u32 zf = 0, ch = 0, start = 0, cb = 0, index = 0;   // TLS
    std::vector<u32> seh, locks; u64 cookie = 0; u32 ts = 0;                            // load configuration
    std::vector<std::pair<Str, std::vector<std::pair<Str, u32>>>> bnd;
};
struct Dir { bool on = false; Model m; size_t sec = 0; u32 off = 0, len = 0, rva = 0, size = 0; resource_directory tree; };
struct World
{
    Gen& g; Pe pe; bool p64; u64 base; std::map<int, Dir> d; size_t hosts; std::vector<Str> noise; u32 cells, celln; std::vector<u64> cell; std::set<size_t> shared; u32 ep; Str hist;
    explicit World(Gen& g_) : g(g_) {}
    section& sec(size_t i) { return pe->get_image_sections()[i]; }
    void log(const Str& s) { hist += (hist.empty() ? "" : "; ") + s; }
};
static Str show(const std::vector<Imp>& v) { std::ostringstream o; for(auto& l : v) { o << "{" << hex(l.lib); for(auto& f : l.f) o << " " << f.named << ":" << hex(f.name) << ":" << f.v; o << "}"; } return o.str(); }
static Str path(const resource_directory_entry& e) { if(!e.is_named()) return "#" + std::to_string(e.get_id()); Str r = "'"; for(auto c : e.get_name()) r += hx((u16)c) + ","; return r; }
static void flatten(const resource_directory& r, const Str& at, std::map<Str, Str>& out)
{
    for(auto& e : r.get_entry_list()) if(e.includes_data()) CHECK(out.insert({at + "/" + path(e), std::to_string(e.get_data_entry().get_codepage()) + ":" + e.get_data_entry().get_data()}).second, "multi.resources", "an entry appears twice"); else flatten(e.get_resource_directory(), at + "/" + path(e), out);
}
static void gen_model(World& w, int k, Dir& x)
{
    Gen& g = w.g; Model m;
    switch(k)
    {
    case IMP: for(u64 n = g.range(1, 4); n; --n) { Imp l; l.lib = sym_name(g, 10); for(u64 i = g.small(8); i; --i) { Imp::F f; f.named = g.flip(); f.v = g.u16any(); if(f.named) f.name = sym_name(g, 12); l.f.push_back(f); } m.imp.push_back(l); } break;
    case EXP: { m.dll = sym_name(g, 12); u16 o = (u16)g.range(1, 300); std::set<Str> used; for(u64 n = g.small(10); n; --n) { Exp e; e.ord = o; o += (u16)g.range(1, g.chance(1, 6) ? 40 : 2); e.rva = 0; if(g.chance(1, 4)) e.fwd = "N." + sym_name(g, 8); else e.rva = (u32)g.range(1, 0xfff); if(g.flip()) { e.name = sym_name(g, 10); while(!used.insert(e.name).second) e.name += '_'; } m.exp.push_back(e); } break; }
    case REL: { u32 first = w.cells; std::map<u32, std::vector<u16>> t; for(u32 i = 0; i < w.celln; ++i) { u32 a = first + i * (w.p64 ? 8 : 4); if(!i || g.chance(2, 3)) t[a & ~0xfffu].push_back((u16)(a & 0xfff)); } for(auto& q : t) m.rel.push_back(q); break; }
    case TLS: m.data = g.bytes((size_t)g.small(80)); for(u64 n = g.small(4); n; --n) m.cbs.push_back((u32)g.range(1, 0xffff)); m.zf = g.u32any(); m.ch = g.u32any(); m.index = w.cells; break;
    case CFG: { for(u64 n = g.small(9); n; --n) m.seh.push_back((u32)g.range(1, 0xffff)); for(u64 n = g.small(6); n; --n) m.locks.push_back((u32)g.range(1, 0xffff)); m.cookie = g.u32any(); m.ts = g.u32any(); break; }
    case BND: for(u64 n = g.range(1, 3); n; --n) { std::vector<std::pair<Str, u32>> r; for(u64 i = g.small(4); i; --i) r.push_back({g.name(1, 10), g.u32any()}); m.bnd.push_back({g.name(1, 10), r}); } break;
    case RES:
        {
            x.tree = resource_directory(); pe_resource_manager rm(x.tree);
            for(u64 n = g.range(1, 9); n; --n)
            {
                std::wstring nm; for(u64 c = g.range(1, 6); c; --c) nm += (wchar_t)(g.chance(1, 6) ? g.range(0xa0, 0x24ff) : g.range('A', 'Z')); u32 id = (u32)g.range(1, 12), lang = (u32)g.range(0, 3); Str b = g.bytes((size_t)(g.chance(1, 20) ? g.range(500, 6000) : g.small(60)));
                switch(g.below(4)) { case 0: rm.add_resource(b, (pe_resource_viewer::resource_type)g.range(1, 5), id, lang, 1200); break; case 1: rm.add_resource(b, (pe_resource_viewer::resource_type)g.range(1, 5), nm, lang); break; case 2: rm.add_resource(b, nm, id, lang); break; default: rm.add_resource(b, nm, nm, lang, 7); }
            }
            flatten(x.tree, "", m.res); break;
        }
    }
    x.m = m;
}
// rebuilds directory k of image pe into section s at offset off
static image_directory build(pe_base& pe, bool p64, u64 base, int k, Dir& x, section& s, u32 off, bool strip, bool read_back = false)
{
    Model& m = x.m; (void)base;
    switch(k)
    {
    case IMP:
        {
            imported_functions_list l; if(read_back) l = get_imported_functions(pe); else for(auto& q : m.imp) { import_library b; b.set_name(q.lib); for(auto& f : q.f) { imported_function i; i.set_iat_va(1); if(f.named) { i.set_name(f.name); i.set_hint(f.v); } else i.set_ordinal(f.v); b.add_import(i); } l.push_back(b); }
            import_rebuilder_settings st; st.set_offset_from_section_start(off); st.enable_auto_strip_last_section(strip); if(read_back) st.save_iat_and_original_iat_rvas(false); return rebuild_imports(pe, l, s, st);
        }
    case EXP:
        {
            export_info i; exported_functions_list l; if(read_back) l = get_exported_functions(pe, i); else { i.set_name(m.dll); i.set_ordinal_base(m.exp.empty() ? 1 : m.exp[0].ord); u16 n = 0; for(auto& e : m.exp) { exported_function f; f.set_ordinal(e.ord); f.set_rva(e.rva); if(!e.fwd.empty()) f.set_forwarded_name(e.fwd); if(!e.name.empty()) { f.set_name(e.name); f.set_name_ordinal(n++); } l.push_back(f); } }
            return rebuild_exports(pe, i, l, s, off, true, strip);
        }
    case REL: { relocation_table_list l; if(read_back) l = get_relocations(pe); else for(auto& q : m.rel) { relocation_table t(q.first); for(u16 o : q.second) t.add_relocation(relocation_entry(o, p64 ? 10 : 3)); l.push_back(t); } return rebuild_relocations(pe, l, s, off, true, strip); }
    case TLS:
        {
            tls_info t; if(read_back) t = get_tls_info(pe); u32 at = (u32)up(off, 8) + 40; u32 va = s.get_virtual_address(); m.cb = va + at; m.start = m.data.empty() ? 0 : m.cb + (u32)(m.cbs.size() + 1) * 8;
            u32 need = at + (u32)(m.cbs.size() + 1) * 8 + (u32)m.data.size(); if(&s == &pe.get_image_sections().back()) pe.expand_section(s, va, need, pe_base::expand_section_raw); t.set_raw_data(m.data); t.set_raw_data_start_rva(m.start); t.recalc_raw_data_end_rva(); if(m.data.empty()) t.set_raw_data_end_rva(0); t.set_callbacks_rva(m.cb); t.set_index_rva(m.index); if(!read_back) { t.clear_tls_callbacks(); for(u32 c : m.cbs) t.add_tls_callback(c); t.set_size_of_zero_fill(m.zf); t.set_characteristics(m.ch); }
            return rebuild_tls(pe, t, s, off, true, true, tls_data_expand_raw, true, strip);
        }
    case CFG: { image_config_info c; if(read_back) c = get_image_config(pe); else { c.set_security_cookie_va(m.cookie); c.set_time_stamp(m.ts); for(u32 q : m.seh) c.add_se_handler_rva(q); for(u32 q : m.locks) c.add_lock_prefix_rva(q); } return rebuild_image_config(pe, c, s, off, true, true, true, strip); }
    case BND: { bound_import_module_list l; if(read_back) l = get_bound_import_module_list(pe); else for(auto& q : m.bnd) { bound_import b(q.first, 77); for(auto& r : q.second) b.add_module_ref(bound_import_ref(r.first, r.second)); l.push_back(b); } return rebuild_bound_imports(pe, l, s, off, true, strip); }
    default: { if(read_back) x.tree = get_resources(pe); return rebuild_resources(pe, x.tree, s, off, true, strip); }
    }
}
static void verify_dir(World& w, pe_base& pe, int k, Dir& x, const char* when)
{
    Str sig = Str("multi.") + dname(k); Model& m = x.m; Str what = Str(when) + ": " + dname(k) + ": ";
    CHECK(pe.directory_exists(k) == x.on, sig, what << (x.on ? "the directory is gone" : "the directory was not removed"));
    try
    {
        switch(k)
        {
        case IMP: { std::vector<Imp> got; if(x.on) for(auto& l : get_imported_functions(pe)) { Imp i; i.lib = l.get_name(); for(auto& f : l.get_imported_functions()) { Imp::F q; q.named = f.has_name(); q.name = f.get_name(); q.v = f.has_name() ? f.get_hint() : f.get_ordinal(); i.f.push_back(q); } got.push_back(i); } CHECK(pe.has_imports() == x.on && (!x.on || got == m.imp), sig, what << "got " << show(got) << ", expected " << show(m.imp)); break; }
        case EXP: if(x.on) { export_info i; std::vector<Exp> got; for(auto& f : get_exported_functions(pe, i)) got.push_back({(u16)f.get_ordinal(), f.is_forwarded() ? 0 : f.get_rva(), f.get_name(), f.get_forwarded_name()}); CHECK_EQ(i.get_name(), m.dll, sig); CHECK(got == m.exp, sig, what << "got " << got.size() << " functions, expected " << m.exp.size()); } break;
        case REL: if(x.on) { std::vector<std::pair<u32, std::vector<u16>>> got; for(auto& t : get_relocations(pe)) { std::vector<u16> o; for(auto& r : t.get_relocations()) { CHECK_EQ(r.get_type(), w.p64 ? 10 : 3, sig); o.push_back(r.get_rva()); } got.push_back({t.get_rva(), o}); } CHECK(got == m.rel, sig, what << "got " << got.size() << " tables, expected " << m.rel.size()); } break;
        case TLS: if(x.on) { tls_info t = get_tls_info(pe); CHECK(t.get_raw_data() == m.data && t.get_tls_callbacks() == m.cbs && t.get_raw_data_start_rva() == m.start && t.get_callbacks_rva() == m.cb && t.get_index_rva() == m.index && t.get_size_of_zero_fill() == m.zf && t.get_characteristics() == m.ch, sig, what << t.get_raw_data().size() << " bytes at " << hx(t.get_raw_data_start_rva()) << ", " << t.get_tls_callbacks().size() << " callbacks; expected " << m.data.size() << " at " << hx(m.start) << ", " << m.cbs.size()); } break;
        case CFG: if(x.on) { image_config_info c = get_image_config(pe); auto s = m.seh; std::sort(s.begin(), s.end()); CHECK(c.get_se_handler_rvas() == s && c.get_lock_prefix_rvas() == m.locks && c.get_security_cookie_va() == m.cookie && c.get_time_stamp() == m.ts, sig, what << c.get_se_handler_rvas().size() << " handlers, " << c.get_lock_prefix_rvas().size() << " lock prefixes; expected " << s.size() << ", " << m.locks.size()); } break;
        case BND: if(x.on) { decltype(m.bnd) got; for(auto& b : get_bound_import_module_list(pe)) { std::vector<std::pair<Str, u32>> r; for(auto& q : b.get_module_ref_list()) r.push_back({q.get_module_name(), q.get_timestamp()}); CHECK_EQ(b.get_timestamp(), 77u, sig); got.push_back({b.get_module_name(), r}); } CHECK(got == m.bnd, sig, what << "got " << got.size() << " modules, expected " << m.bnd.size()); } break;
        case RES: if(x.on) { std::map<Str, Str> got; flatten(get_resources(pe), "", got); CHECK(got == m.res, sig, what << "got " << got.size() << " resources, expected " << m.res.size()); } break;
        }
    }
    catch(const pe_exception& e) { fail(sig + " unreadable", what + e.what()); }
    if(x.on) { CHECK_EQ(pe.get_directory_rva(k), x.rva, sig); CHECK_EQ(pe.get_directory_size(k), x.size, sig); }
}
static void verify(World& w, pe_base& pe, const char* when)
{
    for(auto& q : w.d) verify_dir(w, pe, q.first, q.second, when);
    CHECK_EQ(pe.get_image_base_64(), w.base, "multi.base"); CHECK_EQ(pe.get_ep(), w.ep, "multi.ep");
    for(size_t i = 0; i < w.hosts; ++i)
    {
        Str now = pe.get_image_sections()[i].get_raw_data(), e = w.noise[i]; u32 ps = w.p64 ? 8 : 4;
        if(i == 0) for(u32 c = 0; c < w.celln; ++c) { Str v = leptr(w.cell[c], w.p64); e.replace(w.cells - pe.get_image_sections()[0].get_virtual_address() + c * ps, ps, v); }
        now.resize(std::max(now.size(), e.size()), 0); e.resize(now.size(), 0); size_t b = 0; while(b < e.size() && e[b] == now[b]) ++b; CHECK(b == e.size(), "multi.clobber", when << ": byte " << hx(b) << " of section " << i << " changed from " << hx((u8)e[b]) << " to " << hx((u8)now[b]));
    }
}
static u32 measure(World& w, int k, const Dir& x, u32 off)
{   // bytes the directory takes at this offset
    pe_base c(*w.pe); section s; s.set_name("m"); s.set_raw_data(Str(1, 0)); section& a = c.add_section(s); Dir y = x; build(c, w.p64, w.base, k, y, a, off, false); return (u32)a.get_raw_data().size() - off;
}
static bool save_load(World& w, bool reload)
{
    Gen& g = w.g; bool sd = g.chance(1, 4), ch = true, sb = g.flip(); Str f = rebuilt(*w.pe, sd, ch, sb), why; Img r; CHECK(parse(f, r, why) && well_formed(r, f.size(), why), "multi.file", why);
    Pe q = must_load(f, w.p64, "multi.reload"); verify(w, *q, "saved"); w.log(Str(reload ? "save and load" : "save") + (sd ? " without DOS header" : "")); if(reload) w.pe = std::move(q); return true;
}
static size_t fresh(World& w, const char* n)
{
    Gen& g = w.g; section s; s.set_name(n); s.readable(true).writeable(g.flip()); s.set_raw_data(Str((size_t)g.pick({1, 1, 16, 600}), 0)); w.pe->add_section(s); return w.pe->get_image_sections().size() - 1;
}
// everything an image object holds
static Str state(const pe_base& p)
{
    std::ostringstream o; o << Str((const char*)&p.get_dos_header(), sizeof(p.get_dos_header())) << "|" << p.get_stub_overlay() << "|" << Str(p.get_nt_headers_ptr(), p.get_sizeof_nt_header()) << "|" << p.get_full_headers_data() << "|" << p.has_overlay() << p.get_pe_type() << "|";
    for(auto& d : p.get_raw_debug_data_list()) o << d.first << ":" << d.second << "|"; for(auto& s : p.get_image_sections()) o << Str((const char*)&s.get_raw_header(), sizeof(s.get_raw_header())) << "|" << s.get_raw_data() << "|"; return o.str();
}
// a debug directory entry with data
static void debug_data(Gen& g, Img& m, Placer& p)
{
    Str b = g.bytes((size_t)g.range(1, 90)); u32 a = p.place(b); Sec& s = p.sec_at(a); m.dirs[6] = {p.place(le<u32>(0) + le<u32>(g.u32any()) + le<u32>(0) + le<u32>(g.pick({1u, 2u, 4u})) + le<u32>((u32)b.size()) + le<u32>(a) + le<u32>(s.rawptr + a - s.va), 4), 28}; g.label("debug data");
}
static void run(Gen& g)
{
    World w(g); static const int kinds[] = {IMP, EXP, REL, TLS, CFG, BND, RES}; Img m = host_img(g, (unsigned)g.range(1, 3), 1, -1, true, 0x70000000ull); w.p64 = m.p64; w.base = m.base = m.base ? m.base : 0x10000; w.hosts = m.secs.size(); u32 ps = w.p64 ? 8 : 4;
    { Placer p(g, m); w.celln = (u32)g.range(1, 12); w.cells = p.alloc(w.celln * ps, 4, 0); Str c; for(u32 i = 0; i < w.celln; ++i) { w.cell.push_back(m.base + g.range(0x1000, 0xffff)); c += leptr(w.cell[i], w.p64); } p.put(w.cells, c);
      if(g.chance(1, 3)) debug_data(g, m, p); }
    for(Sec& s : m.secs) w.noise.push_back(s.data);
    if(g.chance(1, 5)) { w.pe.reset(w.p64 ? new pe_base(pe_properties_64(), m.salign) : new pe_base(pe_properties_32(), m.salign)); w.pe->set_image_base_64(w.base); u32 delta = 0; for(Sec& q : m.secs) { section s; s.set_name(q.name); s.set_raw_data(q.data); s.readable(true); section& a = w.pe->add_section(s); if(&q == &m.secs[0]) delta = a.get_virtual_address() - q.va; } w.cells += delta; g.label("created image"); }
    else w.pe = must_load(write(m), w.p64, "multi.load");
    w.ep = w.pe->get_ep(); w.pe->clear_characteristics_flags(pe_win::image_file_relocs_stripped); for(int k : kinds) w.d[k];
    unsigned n = (unsigned)g.range(2, 14), rebuilds = 0; struct Note { World& w; Gen& g; ~Note() { g.note((w.p64 ? "PE32+: " : "PE32: ") + w.hist); } } note{w, g};
    for(unsigned step = 0; step < n; ++step)
    {
        auto& secs = w.pe->get_image_sections(); if(secs.size() > 40) break; bool one = secs.size() == 1; int k = kinds[g.below(7)]; Dir& x = w.d[k]; unsigned op = g.weighted({6, 5, 3, 1, 2, 1, 1, 2, 2, 1, 1}); Str what;
        try
        {
            if(op <= 1 || (op == 4 && x.on))
            {   // a new directory in a new section, or behind what the last section of our own holds
                bool rb = op == 4; if(!rb) gen_model(w, k, x); bool share = op == 1 || (rb && g.flip()); size_t last = secs.size() - 1; bool strip = g.flip(); u32 off; size_t si;
                if(share && last >= w.hosts && w.shared.count(last))
                {   // strip cuts zeros off the end, so look for the end of what is used
                    u32 end = 0; for(auto& q : w.d) if(q.second.sec == last) end = std::max(end, q.second.off + q.second.len); si = last; off = end + (u32)g.small(20); g.label("shared section");
                }
                else { si = fresh(w, dname(k)); w.shared.insert(si); off = (u32)g.pick({0, 0, 1, 7, 300}); }
                what = Str(rb ? "read and rebuild " : "rebuild ") + dname(k) + " in section " + std::to_string(si) + " at " + hx(off) + (strip ? " strip" : ""); if(k == RES && rb) x.tree = get_resources(*w.pe);
                u32 len = 0; if(rb) { Dir y = x; len = measure(w, k, y, off); } else len = measure(w, k, x, off); Dir y = x; image_directory r = build(*w.pe, w.p64, w.base, k, y, w.sec(si), off, strip, rb); y.on = true; y.sec = si; y.off = off; y.len = len; y.rva = r.get_rva(); y.size = r.get_size(); x = y; ++rebuilds;
                if(si >= w.pe->get_image_sections().size()) { what += " (and lost the section)"; fail("multi.section", what); }
            }
            else if(op == 2 && x.on)
            {   // in place
                Dir y = x; gen_model(w, k, y); u32 need = measure(w, k, y, x.off); bool tail = true; for(auto& q : w.d) if(q.first != k && q.second.sec == x.sec && q.second.off >= x.off) tail = false; bool last = x.sec + 1 == secs.size();
                if((need > x.len && !(tail && last)) || (k == TLS && !last && w.sec(x.sec).get_raw_data().size() < x.off + need)) continue; // (TLS data may be written in part where only virtual room is left)
                what = Str("rebuild ") + dname(k) + " in place, " + std::to_string(need) + " bytes for " + std::to_string(x.len); bool strip = g.flip(); image_directory r; bool thr = false; try { r = build(*w.pe, w.p64, w.base, k, y, w.sec(x.sec), x.off, strip); } catch(const pe_exception& e) { thr = true; }
                if(thr) { CHECK(!last, "multi.refused", what << " was refused in the last section"); what += " refused"; g.label("refused in place"); if(k == TLS) { x.on = false; w.pe->remove_directory(TLS); } } else { y.len = std::max(x.len, need); y.rva = r.get_rva(); y.size = r.get_size(); x = y; ++rebuilds; g.label("in place"); }
            }
            else if(op == 3) { what = Str("remove ") + dname(k); w.pe->remove_directory(k); x.on = false; if(k == REL) w.pe->clear_characteristics_flags(pe_win::image_file_relocs_stripped); }
            else if(op == 5 && !one) { what = "realign sections"; w.pe->realign_all_sections(); }
            else if(op == 6 && !one) { u32 fa = g.pick({0x200u, 0x400u, 0x1000u}); what = "realign file to " + hx(fa); w.pe->realign_file(fa); }
            else if(op == 7) { what = "copy"; Str was = state(*w.pe); Pe c(new pe_base(*w.pe)); if(g.flip()) { for(int q : kinds) w.pe->remove_directory(q); for(auto& s : w.pe->get_image_sections()) s.get_raw_data().assign(s.get_raw_data().size(), 'X'); } CHECK(state(*c) == was, "multi.copy", "a copy of the image differs from it");
                if(g.flip()) { pe_base z((pe_properties_32())); if(g.flip()) { Img o = host_img(g, 1, 1); o.overlay = g.bytes((size_t)g.below(9)); if(g.flip()) { Placer op(g, o); debug_data(g, o, op); } z = *must_load(write(o), o.p64, "multi.load"); } z = *c; Pe c2(new pe_base(z)); c = std::move(c2); CHECK(state(*c) == was && state(z) == was, "multi.copy", "an assigned image differs from its source"); } w.pe = std::move(c); }
            else if(op == 8) { save_load(w, true); continue; }
            else if(op == 9 && w.d[REL].on)
            {
                u64 nb = w.p64 ? (g.u64any() & 0x7fffffff0000ull) : (g.u32any() & 0x7fff0000u); if(!nb) nb = 0x10000; what = "rebase to " + hx(nb); rebase_image(*w.pe, get_relocations(*w.pe), nb);
                for(auto& t : w.d[REL].m.rel) for(u16 o : t.second) { u64& c = w.cell[(t.first + o - w.cells) / ps]; c += nb - w.base; if(!w.p64) c = (u32)c; } w.base = nb;
                for(int q : {TLS, CFG}) if(w.d[q].on) { Dir& y = w.d[q]; what += Str(", ") + dname(q) + " again"; image_directory r;
                    try { if(q == TLS && y.sec + 1 != w.pe->get_image_sections().size() && w.sec(y.sec).get_raw_data().size() < y.off + y.len) throw pe_exception("no raw room"); r = build(*w.pe, w.p64, w.base, q, y, w.sec(y.sec), y.off, false); } catch(const pe_exception&) { if(y.sec + 1 == w.pe->get_image_sections().size()) throw; what += " refused"; y.on = false; w.pe->remove_directory(q); g.label("refused in place"); continue; } // realigning stripped its zeros
                    CHECK_EQ(r.get_rva(), y.rva, "multi.inplace"); } g.label("rebased");
            }
            else if(op == 10)
            {
                switch(g.below(5)) { case 0: { u32 s = (u32)g.range(1, 0x3000); what = "add an empty section"; section q; q.set_name(".bss"); q.set_virtual_size(s); w.pe->add_section(q); break; } case 1: what = "set entry point"; w.pe->set_ep(w.ep = g.u32any()); break; case 2: what = "set stub"; w.pe->set_stub_overlay(g.bytes((size_t)g.small(400) & ~3u)); break;
                case 3: what = "strip data directories"; { u32 keep = w.pe->strip_data_directories((u32)g.below(17), false); what += " to " + std::to_string(keep); save_load(w, g.flip()); w.pe->set_number_of_rvas_and_sizes(16); break; } default: what = "expand last section"; { section& s = w.pe->get_image_sections().back(); if(!s.empty()) w.pe->expand_section(s, s.get_virtual_address(), (u32)s.get_raw_data().size() + (u32)g.range(1, 0x1800), g.flip() ? pe_base::expand_section_raw : pe_base::expand_section_virtual); } }
            }
            else continue;
        }
        catch(const pe_exception& e) { w.log(what); fail("multi.exception", what + ": " + e.what()); }
        w.log(what); verify(w, *w.pe, what.c_str());
    }
    if(rebuilds >= 2) g.nontrivial(); unsigned on = 0; for(auto& q : w.d) on += q.second.on; g.label(std::to_string(on) + " directories at the end"); save_load(w, false);
}
const pbt::PropInfo pbt::prop_info = {"C28", "Histories of 2..14 operations on one image with up to seven directories: rebuild any of them into new or shared sections or in place, read and rebuild, remove, rebase, copy, realign, expand, edit headers, save and reload. After every step each directory is read and compared with its model, and all other bytes with what they were. Non-trivial: two rebuilds.", run, 20000, 1000000, 0, 0, 20};
