// C17: a bitmap file put into resources comes back byte for byte, whatever its kind and whatever happens to other bitmaps.
#include "gen_pe.h"
#include "pe_bliss_resources.h"
using namespace ref;
struct K { bool named; std::wstring name; u32 id; bool operator<(const K& o) const { return std::tie(named, name, id) < std::tie(o.named, o.name, o.id); } };
static Str show(const K& k) { if(!k.named) return std::to_string(k.id); Str r = "'"; for(wchar_t c : k.name) r += c < 128 ? (char)c : '?'; return r + "'"; }
// device-independent bitmap: info header, masks, palette, bits; off is where the bits start in it
static Str gen_dib(Gen& g, u32& off, Str& kind)
{
    u32 hs = g.pick({40u, 40u, 40u, 108u, 124u, 52u, 56u, 64u}); u16 bits = g.pick<u16>({1, 4, 8, 16, 24, 32, 2, 0}); u32 comp = bits == 0 ? g.pick({4u, 5u}) : bits == 16 || bits == 32 ? g.pick({0u, 3u}) : bits == 8 ? g.pick({0u, 1u}) : bits == 4 ? g.pick({0u, 2u}) : 0, max = bits && bits <= 8 ? 1u << bits : 256, used = g.chance(1, 2) ? 0 : (u32)g.range(1, max);
    u32 pal = used ? used : bits && bits <= 8 ? max : 0; u32 masks = hs == 40 && comp == 3 ? 12 : 0; off = hs + masks + 4 * pal;
    Str d = le<u32>(hs) + le<u32>(g.u32any()) + le<u32>(g.u32any()) + le<u16>(1) + le<u16>(bits) + le<u32>(comp) + le<u32>(g.u32any()) + le<u32>(g.u32any()) + le<u32>(g.u32any()) + le<u32>(used) + le<u32>((u32)g.below(max + 1)); d += g.bytes(off - 40); d += g.bytes(crowd(g, 60, 0x40000, 600));
    kind = std::to_string(bits) + " bits" + (comp == 3 ? " with masks" : "") + (hs > 40 ? " header " + std::to_string(hs) : ""); return d;
}
static Str bmp_of(const Str& dib, u32 off) { return "BM" + le<u32>((u32)dib.size() + 14) + le<u32>(0) + le<u32>(off + 14) + dib; }
typedef std::map<K, std::map<u32, std::pair<Str, u32>>> Model;
static void compare(pe_resource_viewer& v, const Model& m, const std::vector<K>& keys, const std::vector<u32>& langs)
{
    resource_bitmap_reader r(v); auto T = pe_resource_viewer::resource_bitmap;
    for(const K& k : keys)
    {
        auto it = m.find(k); if(it != m.end() && it->second.empty()) it = m.end();
        for(u32 lang : langs)
        {
            Str s; bool thr = throws_pe([&] { s = k.named ? r.get_bitmap_by_name(lang, k.name) : r.get_bitmap_by_id_lang(lang, k.id); }); bool has = it != m.end() && it->second.count(lang);
            CHECK(thr == !has, "bitmap.get", "bitmap " << show(k) << " language " << lang << (thr ? " cannot be read" : " is still there")); if(!has) continue; auto& w = it->second.at(lang);
            CHECK(s == w.first, "bitmap.file", "bitmap " << show(k) << " is " << hex(s, 70) << "(" << s.size() << "), expected " << hex(w.first, 70) << "(" << w.first.size() << ")");
            resource_data_info d = k.named ? v.get_resource_data_by_name(lang, T, k.name) : v.get_resource_data_by_id(lang, T, k.id); CHECK(d.get_data() == w.first.substr(14), "bitmap.raw", "raw bitmap resource is " << hex(d.get_data(), 64)); CHECK_EQ(d.get_codepage(), w.second, "bitmap.codepage");
        }
        u32 n = it == m.end() ? 0 : (u32)it->second.size(); if(n) { auto l = k.named ? v.list_resource_languages(T, k.name) : v.list_resource_languages(T, k.id); CHECK_EQ((u32)l.size(), n, "bitmap.languages"); for(u32 i = 0; i < n; ++i) CHECK((k.named ? r.get_bitmap_by_name(k.name, i) : r.get_bitmap_by_id(k.id, i)) == it->second.at(l[i]).first, "bitmap.index", "bitmap " << show(k) << " by index " << i); }
        CHECK(throws_pe([&] { k.named ? r.get_bitmap_by_name(k.name, n) : r.get_bitmap_by_id(k.id, n); }), "bitmap.index", "bitmap " << show(k) << " by index " << n << " beyond its languages");
    }
}
static void run(Gen& g)
{
    std::vector<K> keys = {{true, L"MAIN", 0}, {true, L"\x042f", 0}, {false, L"", 1}, {false, L"", 40000}}; std::vector<u32> langs = {1033, 0, 1049}; resource_directory dir; pe_resource_manager v(dir); Model m; std::ostringstream o; size_t nops = 1 + (size_t)g.small(10), adds = 0;
    for(size_t op = 0; op < nops; ++op)
    {
        K k = g.pick(keys); u32 lang = g.pick(langs); resource_bitmap_writer w(v);
        switch(g.weighted({8, 3, 1, 1}))
        {
        case 0:
        {
            u32 off; Str kind, dib = gen_dib(g, off, kind), f = bmp_of(dib, off), put = f; if(g.chance(1, 8)) { put.replace(2, 12, g.bytes(12)); g.label("odd file header"); } u32 cp = g.u32any(); o << " +" << show(k) << "/" << lang << " " << kind; g.note("history:" + o.str());
            k.named ? w.add_bitmap(put, k.name, lang, cp) : w.add_bitmap(put, k.id, lang, cp); m[k][lang] = {f, cp}; ++adds; g.label(kind); break;
        }
        case 1: { bool x = k.named ? w.remove_bitmap(k.name, lang) : w.remove_bitmap(k.id, lang), e = m.count(k) && m[k].erase(lang); o << " -" << show(k) << "/" << lang; CHECK(x == e, "bitmap.removed", "remove_bitmap returned " << x); break; }
        case 2: { Str f = g.bytes((size_t)g.below(14)); o << " +short"; Str was = tree_text(dir); CHECK(throws_pe([&] { k.named ? w.add_bitmap(f, k.name, lang) : w.add_bitmap(f, k.id, lang); }), "bitmap.short", "a file of " << f.size() << " bytes was accepted"); CHECK(tree_text(dir) == was, "bitmap.refused-change", "the resources were changed although the file was refused"); break; }
        default:
        {   // a resource too short for a bitmap is refused by the reader and can be replaced
            Str d = g.bytes((size_t)g.below(40)); o << " short resource"; k.named ? v.add_resource(d, pe_resource_viewer::resource_bitmap, k.name, lang) : v.add_resource(d, pe_resource_viewer::resource_bitmap, k.id, lang); resource_bitmap_reader r(v);
            CHECK(throws_pe([&] { k.named ? r.get_bitmap_by_name(lang, k.name) : r.get_bitmap_by_id_lang(lang, k.id); }), "bitmap.short", "a bitmap resource of " << d.size() << " bytes was accepted"); k.named ? w.remove_bitmap(k.name, lang) : w.remove_bitmap(k.id, lang); if(m.count(k)) m[k].erase(lang); break;
        }
        }
        if(op + 1 == nops || g.chance(1, 4))
        {
            g.note("history:" + o.str());
            if(g.chance(1, 4) && !dir.get_entry_list().empty()) { bool p64 = g.flip(); Pe pe; if(p64) pe.reset(new pe_base(pe_properties_64())); else pe.reset(new pe_base(pe_properties_32())); section s; s.set_name(".rsrc"); s.set_raw_data(Str(1, 0)); section& at = pe->add_section(s); rebuild_resources(*pe, dir, at); dir = get_resources(*must_load(rebuilt(*pe), p64, "bitmap.reload")); g.label("saved and read back"); o << " save"; }
            compare(v, m, keys, langs);
        }
    }
    if(adds) g.nontrivial();
}
const pbt::PropInfo pbt::prop_info = {"C17", "Histories of bitmap files (1..32 bits, palettes of any size, RLE, BI_BITFIELDS masks, headers of version 1 to 5) added, replaced and removed by name, id and language, with saves in between; every bitmap is read back by language and index. Non-trivial: at least one bitmap was added.", run, 30000, 2000000, 0, 0, 20};
