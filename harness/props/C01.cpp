// C01: whatever the bytes of a file are, loading it, reading every part of it and rebuilding it either works or reports a pe_exception:
// no memory error, no crash, no endless run, no leak, no foreign exception.
#include "gen_pe.h"
#include "pe_bliss_resources.h"
#include <new>
using namespace ref;
typedef std::wstring WS;

// Spots of a file worth corrupting: [offset, length)
typedef std::vector<std::pair<u32, u32>> Spots;
struct Seed { Str file; bool p64; Spots spots; std::vector<u32> rvas; };

static Str icon_file(Gen& g, unsigned n, bool cur)
{
    Str d = le<u16>(0) + le<u16>(cur ? 2 : 1) + le<u16>((u16)n), body; u32 at = 6 + 16 * n;
    for(unsigned i = 0; i < n; ++i) { Str b = le<u32>(40) + le<u32>(16) + le<u32>(32) + le<u16>(1) + le<u16>(8) + g.bytes((size_t)g.range(1, 60)); d += Str("\x10\x10\0\0", 4) + le<u16>(1) + le<u16>(8) + le<u32>((u32)b.size()) + le<u32>(at); at += (u32)b.size(); body += b; }
    return d + body;
}
static resource_directory gen_resources(Gen& g)
{
    resource_directory root; pe_resource_manager m(root); unsigned n = (unsigned)g.range(1, 6); u32 lang = 1033;
    for(unsigned i = 0; i < n; ++i) try
    {
        u32 id = (u32)g.range(1, 4); WS nm = g.flip() ? L"NAME" : L"B"; if(g.chance(1, 6)) lang = (u32)g.below(3);
        switch(g.below(9))
        {
        case 0: { Str b = "BM" + le<u32>(0) + le<u32>(0) + le<u32>(54) + le<u32>(40) + le<u32>(4) + le<u32>(4) + le<u16>(1) + le<u16>(g.pick({(u16)1, (u16)4, (u16)8, (u16)24})) + Str(24, 0) + g.bytes(64); resource_bitmap_writer w(m); if(g.flip()) w.add_bitmap(b, id, lang); else w.add_bitmap(b, nm, lang); break; }
        case 1: { resource_cursor_icon_writer w(m); Str f = icon_file(g, (unsigned)g.range(1, 3), false); if(g.flip()) w.add_icon(f, id, lang, resource_cursor_icon_writer::icon_place_free_ids); else w.add_icon(f, nm, lang); break; }
        case 2: { resource_cursor_icon_writer w(m); Str f = icon_file(g, (unsigned)g.range(1, 3), true); if(g.flip()) w.add_cursor(f, id, lang); else w.add_cursor(f, nm, lang); break; }
        case 3: case 4: { file_version_info f; lang_string_values_map s; translation_values_map t; version_info_editor e(s, t); e.add_translation(version_info_editor::default_language_translation); if(g.flip()) e.add_translation(0x409, 1200); e.set_company_name(L"C"); e.set_file_version(L"1.2.3"); e.set_property(L"K" + WS((size_t)g.below(4), L'k'), L"v"); resource_version_info_writer(m).set_version_info(f, s, t, lang); break; }
        case 5: { Str d; for(int k = 0; k < 16; ++k) { u16 l = (u16)g.small(6); d += le<u16>(l); for(u16 c = 0; c < l; ++c) d += le<u16>('a'); } m.add_resource(d, pe_resource_viewer::resource_string, id, lang); break; }
        case 6: { Str d = le<u32>(2), e; u32 at = 4 + 24; for(int k = 0; k < 2; ++k) { u32 lo = 10 + 100 * k, hi = lo + (u32)g.below(3); d += le<u32>(lo) + le<u32>(hi) + le<u32>(at + (u32)e.size()); for(u32 q = lo; q <= hi; ++q) e += le<u16>(12) + le<u16>(k) + Str("text\0\0\0\0", 8); } m.add_resource(d + e, pe_resource_viewer::resource_message_table, id, lang); break; }
        case 7: m.add_resource(g.bytes((size_t)g.below(80)), nm, id, lang); break;
        default: m.add_resource(g.bytes((size_t)g.below(80)), (pe_resource_viewer::resource_type)g.range(1, 24), nm, lang); break;
        }
    }
    catch(const pe_exception&) {}
    return root;
}
static Seed built(Gen& g)
{
    Img m = host_img(g, 4, 1); if(g.flip()) { Str r; u32 key = g.u32any(); r = le<u32>(0x536e6144u ^ key) + le<u32>(key) + le<u32>(key) + le<u32>(key); for(int i = 0; i < 2; ++i) r += le<u32>(g.u32any() ^ key) + le<u32>((u32)g.below(9) ^ key); m.stub = Str(64, 'S') + r + "Rich" + le<u32>(key) + Str(8, 0); m.lfanew = 64 + (u32)m.stub.size(); u32 n = (u32)up(m.table_end(), m.falign); for(Sec& s : m.secs) s.rawptr += n - m.size_headers; m.size_headers = n; }
    Placer p(g, m, false);
    // parts without a builder
    Str dbg; Str names = "c:\\a.pdb"; std::vector<std::pair<u32, Str>> raws; u32 nd = (u32)g.below(4);
    for(u32 i = 0; i < nd; ++i)
    {
        Str raw; u32 type = 2; switch(g.below(5)) { case 0: raw = "RSDS" + g.bytes(16) + le<u32>(1) + names + Str(1, 0); break; case 1: raw = "NB10" + Str(4, 0) + g.bytes(8) + names + Str(1, 0); break; case 2: type = 4; raw = le<u32>(1) + le<u32>(16 + 8) + Str(1, (char)g.below(2)) + Str(3, 0) + Str("exe name", 8); break;
        case 3: { type = 1; u32 k = (u32)g.range(1, 3); raw = le<u32>(k) + le<u32>(32) + Str(24, 0); for(u32 q = 0; q < k; ++q) raw += (g.flip() ? Str("sym\0\0\0\0\0", 8) : Str(4, 0) + le<u32>(4)) + le<u32>(0x1000) + le<u16>(1) + le<u16>(0) + Str(1, g.flip() ? 103 : 2) + Str(1, (char)g.below(2)); raw += le<u32>(12) + "longname" + Str(1, 0); break; }
        default: raw = (g.flip() ? "NB09" : "NB11") + Str(20, 0); break; }
        u32 a = p.place(raw); Sec& s = p.sec_at(a); dbg += le<u32>(0) + le<u32>(0) + le<u32>(0) + le<u32>(type) + le<u32>((u32)raw.size()) + le<u32>(a) + le<u32>(s.rawptr + a - s.va);
    }
    if(nd) { u32 a = p.place(dbg, 4); m.dirs[6] = {a, (u32)dbg.size()}; p.place(Str(28, 0)); }
    if(g.flip()) { u32 k = (u32)g.range(1, 3); Str t; for(u32 i = 0; i < k; ++i) { Str u("\x19\x04\x02\x05", 4); u += g.bytes(4); t += le<u32>(0x1000 + i) + le<u32>(0x1100 + i) + le<u32>(p.place(u, 4)); } m.dirs[3] = {p.place(t, 4), (u32)t.size()}; }
    if(g.chance(1, 4)) { Str c = le<u32>(72) + g.bytes(68); m.dirs[14] = {p.place(c, 4), 72}; }
    Pe pe = load(write(m), m.p64); u32 tail = 0; (void)tail;
    auto fresh = [&](const char* n) -> section& { section s; s.set_name(n); s.readable(true).writeable(true); s.set_raw_data(Str(1, 0)); section& r = pe->add_section(s); pe->set_section_virtual_size(r, 0x3000); return r; };
    try
    {
        if(g.flip()) { imported_functions_list l; for(u64 n = g.range(1, 3); n; --n) { import_library x; x.set_name(n == 2 ? "kernel32.dll" : "u.dll"); for(u64 k = g.range(1, 4); k; --k) { imported_function f; if(g.flip()) { f.set_name(g.name(1, 8)); f.set_hint(1); } else f.set_ordinal((u16)g.range(1, 99)); x.add_import(f); } l.push_back(x); } import_rebuilder_settings st; st.build_original_iat(g.flip()); rebuild_imports(*pe, l, fresh(".imp"), st); }
        if(g.flip()) { exported_functions_list l; export_info i; i.set_name("x.dll"); i.set_ordinal_base(1); u16 nm = 0; for(u64 n = g.range(1, 5); n; --n) { exported_function f; f.set_ordinal((u16)(n * 2 + g.below(2))); if(g.chance(1, 4)) f.set_forwarded_name("N.F"); else f.set_rva(0x1000 + (u32)n); if(g.flip()) { f.set_name("f" + std::to_string(n)); f.set_name_ordinal(nm++); } l.push_back(f); } rebuild_exports(*pe, i, l, fresh(".exp")); }
        if(g.flip()) { relocation_table_list l; for(u64 n = g.range(1, 3); n; --n) { relocation_table t((u32)(0x1000 * n)); for(u64 k = g.range(1, 5); k; --k) t.add_relocation(relocation_entry((u16)(g.below(0x400) * 4), m.p64 ? 10 : 3)); l.push_back(t); } rebuild_relocations(*pe, l, fresh(".rel")); }
        if(g.flip()) { tls_info t; section& s = fresh(".tls"); t.set_raw_data(g.bytes((size_t)g.below(60))); t.set_raw_data_start_rva(pe->rva_from_section_offset(s, 200)); t.recalc_raw_data_end_rva(); t.set_index_rva(pe->rva_from_section_offset(s, 400)); t.set_callbacks_rva(pe->rva_from_section_offset(s, 500)); for(u64 k = g.below(3); k; --k) t.add_tls_callback(0x1000); s.get_raw_data().resize(700); pe->recalculate_section_sizes(s, false); rebuild_tls(*pe, t, s); }
        if(g.flip()) { image_config_info c; for(u64 k = g.below(4); k; --k) { c.add_se_handler_rva(0x1000 + (u32)k); c.add_lock_prefix_rva(0x1010 + (u32)k); } rebuild_image_config(*pe, c, fresh(".cfg")); }
        if(g.flip()) { resource_directory r = gen_resources(g); rebuild_resources(*pe, r, fresh(".rsrc")); }
        if(g.flip()) { bound_import_module_list l; for(u64 n = g.range(1, 3); n; --n) { bound_import b("a.dll", 5); for(u64 k = g.below(3); k; --k) b.add_module_ref(bound_import_ref("f.dll", 9)); l.push_back(b); } rebuild_bound_imports(*pe, l, fresh(".bnd")); }
    }
    catch(const pe_exception& e) { fail("hostile.seed", Str("building the seed failed: ") + e.what()); }
    Seed s; s.p64 = m.p64; s.file = rebuilt(*pe);
    u32 nt = pe->get_pe_header_start(); s.spots.push_back({nt, pe->get_sizeof_nt_header() + 40u * pe->get_number_of_sections()}); s.spots.push_back({0, 64}); if(m.lfanew > 64) s.spots.push_back({64, m.lfanew - 64});
    for(u32 d = 0; d < 16; ++d) if(pe->directory_exists(d)) try { u32 r = pe->get_directory_rva(d); u32 o = pe->rva_to_file_offset(r); u32 z = std::max<u32>(pe->get_directory_size(d), 40); if(d == 2 || d == 0) z = std::min<u32>(z, 4096); for(int k = 0; k < 2; ++k) s.spots.push_back({o, std::min<u32>(z, (u32)s.file.size() - std::min<u32>(o, (u32)s.file.size()))}); s.rvas.push_back(r); } catch(const pe_exception&) {}
    for(auto& x : pe->get_image_sections()) { s.rvas.push_back(x.get_virtual_address()); s.rvas.push_back(x.get_virtual_address() + (u32)x.get_raw_data().size()); }
    s.rvas.push_back(pe->get_size_of_image());
    return s;
}
// an arbitrary readable container whose directories point at generated soup
static Seed soup(Gen& g)
{
    GenOpt o; o.random_dirs = false; o.max_vpages = 2; o.many_secs = false; Img m = gen_img(g, o); Seed s; s.p64 = m.p64; Placer p(g, m, false); for(auto& x : p.free_) (void)x;
    for(Sec& x : m.secs) { s.rvas.push_back(x.va); s.rvas.push_back(x.va + x.vsize); } s.rvas.push_back(m.size_image); s.rvas.push_back(m.size_headers);
    for(u32 d = 0; d < m.ndirs; ++d) if(g.chance(1, 3) && !m.secs.empty())
    {
        Sec& x = m.secs[(size_t)g.below(m.secs.size())]; u32 at = (u32)g.below(std::max<u32>(x.vsize, 1)) & (g.flip() ? ~3u : ~0u); m.dirs[d] = {g.chance(1, 8) ? (u32)g.below(m.size_headers) : x.va + at, (u32)g.small(600)};
        for(u32 k = 0; k < 24 && at + 4 * k + 4 <= x.data.size(); ++k) { u32 v; switch(g.below(6)) { case 0: v = 0; break; case 1: v = x.va + (u32)g.below(x.vsize + 16); break; case 2: v = (u32)m.base + x.va + (u32)g.below(x.vsize + 16); break; case 3: v = (u32)g.below(64); break; case 4: v = 0x80000000u | (u32)g.below(200); break; default: v = g.u32any(); } if(m.dirs[d].first >= x.va) p32(x.data, at + 4 * k, v); }
    }
    s.file = write(m); s.spots.push_back({m.lfanew, m.table_end() - m.lfanew}); for(Sec& x : m.secs) if(x.rawsize) s.spots.push_back({(u32)down(x.rawptr, m.falign), x.rawsize}); return s;
}
// resource directories nested as deep as the file allows
static Seed deep(Gen& g)
{
    if(g.chance(1, 3))
    {   // few directories with many ways through them: every entry leads to the next directory, or anywhere
        Img m = host_img(g, 1, 4, -1, false); Sec& s = m.secs[0]; u32 n = (u32)g.range(2, 70), w = (u32)g.range(2, 4), kind = (u32)g.below(3), z = 16 + 8 * w; Str d;
        for(u32 i = 0; i < n; ++i) { d += Str(12, 0) + le<u16>(0) + le<u16>((u16)w); for(u32 k = 0; k < w; ++k) { u32 to = kind == 0 ? i + 1 : kind == 1 ? (i && k ? (u32)g.below(i) : i + 1) : (u32)g.below(n + 1); d += le<u32>(k) + le<u32>(to >= n ? z * n : 0x80000000u | z * to); } }
        d += le<u32>(s.va) + le<u32>(4) + Str(8, 0); std::copy(d.begin(), d.end(), s.data.begin()); m.dirs[2] = {s.va, (u32)d.size()}; Seed r; r.p64 = m.p64; r.file = write(m); g.label("resource directories reached many ways"); g.note(std::to_string(n) + " resource directories of " + std::to_string(w) + " entries each, linked to each other"); return r;
    }
    u32 pages = (u32)g.pick({1, 8, 64, 256}); Img m = host_img(g, 1, pages, -1, false); Sec& s = m.secs[0]; u32 n = (u32)g.edge(1, pages * 0x1000 / 24 - 4); Str d;
    for(u32 i = 0; i < n; ++i) { d += Str(12, 0) + le<u16>(0) + le<u16>(1) + le<u32>(i & 0xffff) + le<u32>(i + 1 == n ? 24 * n : (0x80000000u | 24 * (i + 1))); } d += le<u32>(s.va) + le<u32>(4) + Str(8, 0); std::copy(d.begin(), d.end(), s.data.begin());
    m.dirs[2] = {s.va, (u32)d.size()}; Seed r; r.p64 = m.p64; r.file = write(m); g.label("deep resource tree"); g.note("resource directories nested " + std::to_string(n) + " deep"); return r;
}
static void corrupt(Gen& g, Seed& s, unsigned n)
{
    Str& f = s.file; std::ostringstream o;
    for(unsigned i = 0; i < n && !f.empty(); ++i)
    {
        u64 at; bool aligned = false; if(!s.spots.empty() && g.chance(9, 10)) { auto& sp = s.spots[(size_t)g.below(s.spots.size())]; u64 len = std::max<u32>(sp.second, 1); at = sp.first + (g.flip() ? g.below(len) : g.below(std::min<u64>(len, 96))); if(g.chance(3, 4)) { at = sp.first + (at - sp.first) / 4 * 4; aligned = true; if(g.flip()) at = sp.first + (at - sp.first) / 2 * 2 + g.below(2) * 2; } } else at = g.below(f.size());
        if(at >= f.size()) continue; unsigned w = g.pick({4u, 4u, 2u, 1u, 8u}); if(at + w > f.size()) w = 1; u64 old = 0; for(unsigned k = w; k--;) old = old << 8 | (u8)f[at + k]; u64 v; (void)aligned;
        switch(g.below(9))
        {
        case 0: v = 0; break; case 1: v = ~0ull; break; case 2: v = g.edge(0, w == 8 ? ~0ull : (1ull << 8 * w) - 1); break; case 3: v = old + g.range(1, 8); break; case 4: v = old - g.range(1, 8); break;
        case 5: v = s.rvas.empty() ? 0 : g.pick(s.rvas) + g.range(0, 16) - 8; break; case 6: { u64 q = g.below(f.size()); v = 0; for(unsigned k = 0; k < w; ++k) v |= (u64)(u8)f[std::min<u64>(q + k, f.size() - 1)] << 8 * k; break; } case 7: v = old ^ (1ull << g.below(8 * w)); break; default: v = 0x80000000u | g.below(0x200); break;
        }
        for(unsigned k = 0; k < w; ++k) f[at + k] = (char)(v >> 8 * k); o << " [" << hx(at) << "]" << w << "=" << hx(v);
    }
    if(g.chance(1, 12)) { f.resize((size_t)g.below(f.size() + 1)); o << " cut to " << f.size(); } else if(g.chance(1, 20)) { f += g.bytes((size_t)g.below(300)); o << " extended to " << f.size(); }
    g.note("file of " + std::to_string(f.size()) + " bytes, corrupted:" + o.str());
}
static volatile u64 sink;
static u64 claimed;   // SizeOfImage of the case, the only legitimate reason for more memory than the file takes
template<class F> static bool attempt_(Gen& g, const char* what, F f);
template<class F> static bool attempt(Gen& g, const char* what, F f)
{
    take_refused(); bool r = attempt_(g, what, f); u64 n = take_refused();
    CHECK(!n || claimed > (16u << 20), Str("hostile.memory:") + what, what << " asked for " << n << " bytes at once, for an image of " << claimed << " bytes"); return r;
}
template<class F> static bool attempt_(Gen& g, const char* what, F f)
{
    try { f(); g.label(Str(what) + " ok"); return true; }
    catch(const pe_exception&) { g.label(Str(what) + " refused"); }
    catch(const std::bad_alloc&) { g.label(Str(what) + " out of memory"); }
    catch(const pbt::Failure&) { throw; } catch(const pbt::Discard&) { throw; }
    catch(const std::exception& e) { fail(Str("hostile.exception:") + what, Str(what) + " threw " + typeid(e).name() + ": " + e.what()); }
    return false;
}
static u64 tree_work(const resource_directory& d) { u64 n = d.get_entry_list().size(); for(auto& e : d.get_entry_list()) { if(!e.includes_data()) n += tree_work(e.get_resource_directory()); else n += e.get_data_entry().get_data().size(); } return n; }
static void read_resources(Gen& g, const resource_directory& root)
{
    pe_resource_viewer v(root); typedef pe_resource_viewer V; auto types = v.list_resource_types(); std::vector<u32> t2 = types; unsigned seen = 0;
    auto each = [&](u32 t) {
        V::resource_type ty = (V::resource_type)t; V::resource_id_list ids; V::resource_name_list names; attempt(g, "resource lists", [&] { ids = v.list_resource_ids(ty); names = v.list_resource_names(ty); sink = v.get_resource_count(ty) + v.resource_exists(ty); });
        if(ids.size() > 4) ids.resize(4); if(names.size() > 3) names.resize(3);
        auto by = [&](auto k, auto langs, auto data_l, auto data_i) { V::resource_language_list ls; attempt(g, "resource languages", [&] { ls = langs(k); }); if(ls.size() > 3) ls.resize(3); for(u32 l : ls) attempt(g, "resource data", [&] { sink = data_l(l, k).get_data().size(); }); attempt(g, "resource data", [&] { sink = data_i(k).get_data().size(); }); return ls; };
        resource_bitmap_reader b(v); resource_cursor_icon_reader c(v); resource_string_table_reader st(v); resource_message_list_reader ml(v);
        for(u32 id : ids)
        {
            auto ls = by(id, [&](u32 k) { return v.list_resource_languages(ty, k); }, [&](u32 l, u32 k) { return v.get_resource_data_by_id(l, ty, k); }, [&](u32 k) { return v.get_resource_data_by_id(ty, k); }); u32 l = ls.empty() ? 0 : ls[0];
            switch(t)
            {
            case 1: attempt(g, "cursor", [&] { sink = c.get_single_cursor_by_id(id).size(); }); attempt(g, "cursor", [&] { sink = c.get_single_cursor_by_id_lang(l, id).size(); }); break;
            case 2: attempt(g, "bitmap", [&] { sink = b.get_bitmap_by_id(id).size(); }); attempt(g, "bitmap", [&] { sink = b.get_bitmap_by_id_lang(l, id).size(); }); break;
            case 3: attempt(g, "icon", [&] { sink = c.get_single_icon_by_id(id).size(); }); attempt(g, "icon", [&] { sink = c.get_single_icon_by_id_lang(l, id).size(); }); break;
            case 6: attempt(g, "string table", [&] { sink = st.get_string_table_by_id(id).size(); }); attempt(g, "string", [&] { sink = st.get_string_by_id((u16)(id * 16 - 13)).size(); }); attempt(g, "string", [&] { sink = st.get_string_by_id_lang(l, (u16)(id * 16 - 1)).size(); }); break;
            case 11: attempt(g, "message table", [&] { sink = ml.get_message_table_by_id(id).size(); }); attempt(g, "message table", [&] { sink = ml.get_message_table_by_id_lang(l, id).size(); }); break;
            case 12: attempt(g, "cursor group", [&] { sink = c.get_cursor_by_id(id).size(); }); attempt(g, "cursor group", [&] { sink = c.get_cursor_by_id_lang(l, id).size(); }); break;
            case 14: attempt(g, "icon group", [&] { sink = c.get_icon_by_id(id).size(); }); attempt(g, "icon group", [&] { sink = c.get_icon_by_id_lang(l, id).size(); }); break;
            }
        }
        for(const WS& n : names)
        {
            auto ls = by(n, [&](const WS& k) { return v.list_resource_languages(ty, k); }, [&](u32 l, const WS& k) { return v.get_resource_data_by_name(l, ty, k); }, [&](const WS& k) { return v.get_resource_data_by_name(ty, k); }); u32 l = ls.empty() ? 0 : ls[0];
            if(t == 2) attempt(g, "bitmap", [&] { sink = b.get_bitmap_by_name(n).size() + b.get_bitmap_by_name(l, n).size(); }); if(t == 12) attempt(g, "cursor group", [&] { sink = c.get_cursor_by_name(n).size() + c.get_cursor_by_name(l, n).size(); }); if(t == 14) attempt(g, "icon group", [&] { sink = c.get_icon_by_name(n).size() + c.get_icon_by_name(l, n).size(); });
        }
    };
    for(u32 t : t2) { if(++seen > 12) break; each(t); }
    // whatever data there is, read as if it had any other type
    std::function<void(const resource_directory&, unsigned&)> raw = [&](const resource_directory& d, unsigned& left) { for(auto& e : d.get_entry_list()) { if(!left) return; if(e.includes_data()) { --left; const Str& x = e.get_data_entry().get_data(); attempt(g, "message table", [&] { sink = resource_message_list_reader::parse_message_list(x).size(); }); } else raw(e.get_resource_directory(), left); } }; unsigned left = 4; raw(root, left);
    resource_version_info_reader vr(v); lang_string_values_map s; translation_values_map t; attempt(g, "version information", [&] { file_version_info i = vr.get_version_info(s, t); sink = i.get_file_version_string<char>().size() + i.get_file_os() + i.get_file_type(); version_info_viewer w(s, t); sink = w.get_company_name().size() + w.get_translation_list().size(); for(auto& x : s) { attempt(g, "version property", [&] { sink = w.get_property(L"K", x.first).size(); version_info_viewer::translation_from_string(x.first); }); } });
}
static void use(Gen& g, const Seed& s, bool p64, bool mem, bool dbg)
{
    Pe pe; bool ok; const Str& f = s.file; claimed = 0; try { claimed = g32(f, (size_t)g32(f, 60) + 24 + 56); } catch(const OutOfRange&) {}
    attempt(g, "type", [&] { std::istringstream is(f); sink = pe_base::get_pe_type(is); }); attempt(g, "checksum", [&] { std::istringstream is(f); sink = calculate_checksum(is); }); attempt(g, "entropy of a file", [&] { std::istringstream is(f); sink = (u64)entropy_calculator::calculate_entropy(is); });
    if(g.chance(1, 4)) ok = attempt(g, "load", [&] { std::istringstream is(f); pe.reset(new pe_base(pe_factory::create_pe(is, mem, dbg))); }); else ok = attempt(g, "load", [&] { pe = load(f, p64, mem, dbg); });
    if(!ok) return; g.nontrivial(); p64 = pe->get_pe_type() == pe_type_64;
    imported_functions_list imp; exported_functions_list ex; export_info ei; relocation_table_list rel; tls_info tls; image_config_info cfg; bound_import_module_list bnd; resource_directory res; debug_info_list dl; unsigned have = 0;
    if(attempt(g, "imports", [&] { imp = get_imported_functions(*pe); })) have |= 1;
    if(attempt(g, "exports", [&] { ex = get_exported_functions(*pe, ei); get_export_ordinal_limits(ex); })) have |= 2;
    if(attempt(g, "relocations", [&] { rel = get_relocations(*pe, g.flip()); })) have |= 4;
    if(attempt(g, "TLS", [&] { tls = get_tls_info(*pe); })) have |= 8;
    if(attempt(g, "load configuration", [&] { cfg = get_image_config(*pe); })) have |= 16;
    if(attempt(g, "bound imports", [&] { bnd = get_bound_import_module_list(*pe); })) have |= 32;
    if(attempt(g, "resources", [&] { res = get_resources(*pe); })) have |= 64;
    attempt(g, "debug", [&] { dl = get_debug_information(*pe); for(auto& d : dl) { debug_info c(d); sink = c.get_type(); switch(c.get_advanced_info_type()) { case debug_info::advanced_info_pdb_7_0: sink = c.get_advanced_debug_info<pdb_7_0_info>().get_pdb_file_name().size(); break; case debug_info::advanced_info_pdb_2_0: sink = c.get_advanced_debug_info<pdb_2_0_info>().get_pdb_file_name().size(); break; case debug_info::advanced_info_misc: sink = c.get_advanced_debug_info<misc_debug_info>().is_exe_name(); break; case debug_info::advanced_info_coff: { auto ci = c.get_advanced_debug_info<coff_debug_info>(); for(auto& y : ci.get_symbols()) sink = y.get_symbol().size(); break; } default: break; } } });
    attempt(g, "exception directory", [&] { sink = get_exception_directory_data(*pe).size(); }); attempt(g, ".NET header", [&] { sink = get_basic_dotnet_info(*pe).get_flags(); }); attempt(g, "Rich header", [&] { sink = get_rich_data(*pe).size(); });
    attempt(g, "entropy", [&] { sink = (u64)entropy_calculator::calculate_entropy(*pe); for(auto& x : pe->get_image_sections()) if(!x.empty()) sink = (u64)entropy_calculator::calculate_entropy(x); });
    if(have & 64 && !res.get_entry_list().empty()) read_resources(g, res);
    for(int i = 0; i < 3; ++i) { u32 r = g.flip() && !s.rvas.empty() ? g.pick(s.rvas) + (u32)g.below(9) - 4 : g.u32any(); attempt(g, "address", [&] { sink = pe->rva_to_file_offset(r); }); attempt(g, "address", [&] { sink = pe->file_offset_to_rva(r); }); attempt(g, "address", [&] { section_data_type t = g.flip() ? section_data_raw : section_data_virtual; bool h = g.flip(); u32 n = pe->section_data_length_from_rva(r, r, t, h); const char* q = static_cast<const pe_base&>(*pe).section_data_from_rva(r, t, h); u64 x = 0; for(u32 k = 0; k < n && k < 0x100000; ++k) x += (u8)q[k]; sink = x; sink = static_cast<const pe_base&>(*pe).section_data_from_rva<u64>(r, t, h); }); }
    // and write it all back
    std::unique_ptr<pe_base> copy; attempt(g, "copy", [&] { copy.reset(new pe_base(*pe)); });
    attempt(g, "rebuild", [&] { std::ostringstream os; rebuild_pe(*pe, os, g.flip(), g.flip(), g.flip()); sink = os.str().size(); });
    for(unsigned n = (unsigned)g.below(4); n; --n) switch(g.below(9))
    {
    case 0: if(have & 4) attempt(g, "rebase", [&] { u64 b = g.u64any() & ~0xffffull; if(!p64) b = (u32)b; rebase_image(*pe, rel, b); }); break;
    case 1: attempt(g, "realign", [&] { pe->realign_file(g.pick({0x200u, 0x1000u, 0x10000u, 0u, 0x300u})); }); break;
    case 2: attempt(g, "edit", [&] { pe->strip_data_directories(); pe->update_image_size(); pe->realign_all_sections(); }); break;
    default:
    {
        section* sec = nullptr; if(!attempt(g, "add section", [&] { section x; x.set_name(".new"); x.set_raw_data(Str(8, 0)); sec = &pe->add_section(x); })) break; u32 off = g.chance(1, 4) ? (u32)g.small(5000) : 0;
        switch(g.below(7)) { case 0: if(have & 1) attempt(g, "rebuild imports", [&] { import_rebuilder_settings st; st.set_offset_from_section_start(off); if(g.flip()) st.save_iat_and_original_iat_rvas(true, g.flip()); rebuild_imports(*pe, imp, *sec, st); get_imported_functions(*pe); }); break; case 1: if(have & 2) attempt(g, "rebuild exports", [&] { rebuild_exports(*pe, ei, ex, *sec, off); }); break; case 2: if(have & 4) attempt(g, "rebuild relocations", [&] { rebuild_relocations(*pe, rel, *sec, off); }); break;
        case 3: if(have & 8) attempt(g, "rebuild TLS", [&] { rebuild_tls(*pe, tls, *sec, off, g.flip(), g.flip(), g.flip() ? tls_data_expand_raw : tls_data_expand_virtual); }); break; case 4: if(have & 16) attempt(g, "rebuild load configuration", [&] { rebuild_image_config(*pe, cfg, *sec, off); }); break; case 5: if(have & 32) attempt(g, "rebuild bound imports", [&] { rebuild_bound_imports(*pe, bnd, *sec, off); }); break; default: if(have & 64) attempt(g, "rebuild resources", [&] { rebuild_resources(*pe, res, *sec, off); }); break; }
        break;
    }
    }
    attempt(g, "rebuild", [&] { std::ostringstream os; rebuild_pe(*pe, os, g.flip(), g.flip(), g.flip()); sink = os.str().size(); });
}
// resources whose data are corrupted where they lie: lengths, counts and offsets inside of them, or cut off
static void resource_case(Gen& g)
{
    resource_directory root = gen_resources(g); std::vector<resource_data_entry*> e; std::function<void(resource_directory&)> walk = [&](resource_directory& d) { for(auto& x : d.get_entry_list()) if(x.includes_data()) e.push_back(&x.get_data_entry()); else walk(x.get_resource_directory()); }; walk(root); if(e.empty()) g.discard(); std::ostringstream o; g.nontrivial();
    for(u64 n = g.range(1, 4); n; --n)
    {
        resource_data_entry& x = *e[(size_t)g.below(e.size())]; Str b = x.get_data(); if(b.size() < 4) continue; u64 z = b.size(); unsigned w = g.chance(1, 3) ? 4 : 2; std::vector<u32> like; for(u32 i = 0; i + w <= z; i += 2) { u64 v = w == 4 ? g32(b, i) : g16(b, i); if(v && v <= z) like.push_back(i); }
        u64 at = !like.empty() && g.chance(3, 4) ? like[(size_t)g.below(like.size())] : g.below((z - w) / 2 + 1) * 2, old = w == 4 ? g32(b, at) : g16(b, at), v; if(at + w > z) continue;
        switch(g.below(7)) { case 0: v = 0; break; case 1: v = ~0ull; break; case 2: v = z - at + g.range(0, 16) - 8; break; case 3: v = old + g.range(1, 8); break; case 4: v = old - g.range(1, 8); break; case 5: v = g.below(2 * z + 8); break; default: v = g.edge(0, w == 4 ? 0xffffffffull : 0xffff); }
        if(w == 4) p32(b, at, (u32)v); else p16(b, at, (u16)v); o << " [" << z << " bytes: " << hx(at) << "]" << w << "=" << hx(v); if(g.chance(1, 6)) { b.resize((size_t)(g.flip() ? z - g.below(std::min<u64>(z, 8)) : g.below(z + 1))); o << " cut to " << b.size(); } x.set_data(Str(b.data(), b.size()));
    }
    g.note("resource data corrupted:" + o.str()); claimed = 0; read_resources(g, root);
}
static void run(Gen& g)
{
    if(g.chance(1, 4)) { g.label("corrupted resource data"); return resource_case(g); }
    Seed s; bool mem = g.chance(1, 6), dbg = !g.chance(1, 6); unsigned kind = g.weighted({60, 25, 2, 3}); g.label(kind == 0 ? "corrupted image with every directory" : kind == 1 ? "corrupted random image" : kind == 2 ? "nested resources" : "plain bytes");
    if(kind == 0) { s = built(g); corrupt(g, s, (unsigned)g.range(1, 6)); } else if(kind == 1) { s = soup(g); corrupt(g, s, (unsigned)g.small(8)); } else if(kind == 2) s = deep(g); else { s.p64 = g.flip(); s.file = g.bytes((size_t)g.small(2000)); if(g.flip() && s.file.size() > 64) { s.file[0] = 'M'; s.file[1] = 'Z'; p32(s.file, 60, (u32)g.below(200)); } }
    bool p64 = s.p64; if(g.chance(1, 20)) p64 = !p64; if(mem && kind == 0 && g.flip()) { Pe pe; try { pe = load(s.file, s.p64); } catch(const std::exception&) {} if(pe) { u32 z = pe->get_size_of_image(); if(z < 0x100000) { Str b = s.file.substr(0, std::min<size_t>(s.file.size(), pe->get_size_of_headers())); b.resize(z, 0); for(auto& x : pe->get_image_sections()) { const Str& r = x.get_raw_data(); if((u64)x.get_virtual_address() + r.size() <= z) b.replace(x.get_virtual_address(), r.size(), r); } s.file = b; g.label("memory dump"); } } }
    use(g, s, p64, mem, dbg);
}
const pbt::PropInfo pbt::prop_info = {"C01", "Images with every kind of directory, Rich header and resource, made with the library, and arbitrary images whose directories point at word soup, then corrupted at 1..8 places (directory areas, headers, anywhere: extreme values, near addresses, bit flips, copies), cut off, dumped from memory; resource directories nested up to the file size; plain bytes; resources whose data are corrupted in place. Half of the cases are mutated from a corpus kept by coverage. Every reader, resource viewer, converter, rebuilder runs on whatever loads. Non-trivial: the file was loaded.", run, 40000, 3000000, 50, 64u << 20, 20};
