// C19: string tables and message tables are read exactly as the compilers lay them out; incomplete ones are refused.
#include "gen_pe.h"
#include "pe_bliss_resources.h"
using namespace ref;
typedef std::wstring W;
static W wtext(Gen& g, size_t max)
{
    W r; size_t n = g.chance(1, 60) ? (size_t)g.range(200, 3000) : (size_t)g.small(max); if(g.chance(1, 2000)) { n = (size_t)g.range(0x7000, 0xffff); g.label("very long text"); return W(n, L'\x44f'); } unsigned kind = g.weighted({3, 1, 1});
    for(size_t i = 0; i < n; ++i) r += (wchar_t)(kind == 0 ? g.range('A', 'z') : kind == 1 ? g.range(0x410, 0x44f) : g.pick<u64>({0, 1, 0x7f, 0x80, 0xff, 0x100, 0x20ac, 0x4e2d, 0xd7ff, 0xe000, 0xfeff, 0xfffd}));
    return r;
}
static Str u16le(const W& w) { Str r; for(wchar_t c : w) r += le<u16>((u16)c); return r; }
static Str utf(const W& w) { Str r; for(wchar_t c : w) { r += c < 128 && c >= 32 ? Str(1, (char)c) : "\\" + hx((u64)c); if(r.size() > 60) return r + "..."; } return r; }
static void save(Gen& g, resource_directory& dir, const char* sig) { if(!g.chance(1, 4) || dir.get_entry_list().empty()) return; bool p64 = g.flip(); Pe pe; if(p64) pe.reset(new pe_base(pe_properties_64())); else pe.reset(new pe_base(pe_properties_32())); section s; s.set_name(".rsrc"); s.set_raw_data(Str(1, 0)); section& at = pe->add_section(s); rebuild_resources(*pe, dir, at); dir = get_resources(*must_load(rebuilt(*pe), p64, sig)); g.label("saved and read back"); }
static void string_tables(Gen& g)
{
    typedef std::map<u16, W> M; std::map<u32, std::map<u32, M>> all; resource_directory dir; pe_resource_manager v(dir); size_t n = 1 + (size_t)g.small(3); std::vector<u32> langs = {1033, 0, 1049}; std::ostringstream o; std::map<u32, std::map<u32, Str>> raw;
    for(size_t i = 0; i < n; ++i)
    {
        u32 id = g.flip() ? (u32)g.range(1, 4) : (u32)g.edge(1, 4096), lang = g.pick(langs); M m; Str d; for(u32 k = 0; k < 16; ++k) { W s = g.chance(1, 3) ? W() : wtext(g, 12); d += le<u16>((u16)s.size()) + u16le(s); if(!s.empty()) m[(u16)((id - 1) * 16 + k)] = s; }
        raw[id][lang] = d; if(g.chance(1, 4)) d += g.bytes((size_t)g.below(8)); v.add_resource(d, pe_resource_viewer::resource_string, id, lang); all[id][lang] = m; o << " table " << id << "/" << lang << " " << m.size() << " strings, " << d.size() << " bytes";
    }
    g.note(o.str()); save(g, dir, "strings.reload"); resource_string_table_reader r(v);
    for(auto& t : all)
    {
        auto l = v.list_resource_languages(pe_resource_viewer::resource_string, t.first);
        for(u32 lang : langs)
        {
            M got; bool has = t.second.count(lang), thr = throws_pe([&] { got = r.get_string_table_by_id_lang(lang, t.first); }); CHECK(thr == !has, "strings.get", "table " << t.first << " language " << lang << (thr ? " is refused" : " is there")); if(!has) continue; const M& m = t.second[lang]; CHECK(got.size() == m.size(), "strings.table", "table " << t.first << " has " << got.size() << " strings, expected " << m.size());
            for(auto& s : m) CHECK(got.count(s.first) && got[s.first] == s.second, "strings.table", "string " << s.first << " is '" << utf(got[s.first]) << "', expected '" << utf(s.second) << "'"); u32 idx = (u32)(std::find(l.begin(), l.end(), lang) - l.begin()); CHECK(r.get_string_table_by_id(t.first, idx) == got, "strings.index", "table by index " << idx);
            for(u32 k = 0; k < 16; ++k) { u16 sid = (u16)((t.first - 1) * 16 + k); for(int by = 0; by < 2; ++by) { W s; bool miss = throws_pe([&] { s = by ? r.get_string_by_id(sid, idx) : r.get_string_by_id_lang(lang, sid); }); CHECK(miss == !m.count(sid), "strings.string", "string " << sid << (miss ? " is not found" : " is found")); if(!miss) CHECK(s == m.at(sid), "strings.string", "string " << sid << " is '" << utf(s) << "', expected '" << utf(m.at(sid)) << "'"); } }
        }
        CHECK(throws_pe([&] { r.get_string_table_by_id(t.first, (u32)l.size()); }) && throws_pe([&] { r.get_string_by_id((u16)((t.first - 1) * 16), (u32)l.size()); }), "strings.index", "index beyond the languages");
    }
    for(u32 id : {1u, 2u, 4096u, 77u}) if(!all.count(id)) CHECK(throws_pe([&] { r.get_string_table_by_id(id); }) && throws_pe([&] { r.get_string_by_id_lang(1033, (u16)((id - 1) * 16)); }), "strings.get", "absent table " << id);
    auto& rt = raw.begin()->second; Str d = rt.begin()->second; size_t cut = g.flip() ? d.size() - 1 - (size_t)g.below(std::min<size_t>(d.size(), 8)) : (size_t)g.below(d.size()); v.add_resource(d.substr(0, cut), pe_resource_viewer::resource_string, raw.begin()->first, rt.begin()->first); g.note("cut to " + std::to_string(cut) + " of " + std::to_string(d.size()));
    CHECK(throws_pe([&] { r.get_string_table_by_id_lang(rt.begin()->first, raw.begin()->first); }), "strings.truncated", "string table cut from " << d.size() << " to " << cut << " bytes was accepted"); g.label("string table"); size_t c = 0; for(auto& t : all) for(auto& q : t.second) c += q.second.size(); if(c > 1) g.nontrivial();
}
struct Msg { bool uni; W w; Str a; };
static void message_tables(Gen& g)
{
    bool many = g.chance(1, 10), huge = g.chance(1, 120); bool vast = !huge && throng(g, 400); if(huge) g.label("huge table"); size_t nb = g.chance(1, 12) ? 0 : many ? (size_t)g.range(5, 24) : 1 + (size_t)g.small(4); std::map<u32, Msg> m; std::vector<std::pair<u32, u32>> blocks; std::set<std::pair<u32, u32>> used; std::ostringstream o;
    for(size_t i = 0; i < nb; ++i) { u32 n = vast && !i ? (u32)g.range(257, 5000) : many ? 1 : 1 + (u32)g.small(6), lo = g.chance(1, 5) ? (u32)g.edge(0, 0xffffffffu - (n - 1)) : g.chance(1, 8) ? 0xffffffffu - (n - 1) : (u32)g.range(0, 2000); bool clash = false; for(auto& b : blocks) if(lo <= b.second && lo + (n - 1) >= b.first) clash = true; if(clash) continue; blocks.push_back({lo, lo + (n - 1)}); }
    nb = blocks.size(); std::vector<size_t> ord(nb); for(size_t i = 0; i < nb; ++i) ord[i] = i; if(g.flip()) for(size_t i = nb; i > 1; --i) std::swap(ord[i - 1], ord[(size_t)g.below(i)]);
    Str head = le<u32>((u32)nb) + Str(12 * nb, 0), body; bool pad = g.flip(); size_t last = head.size(); std::map<size_t, u32> offs;
    for(size_t i : ord)
    {
        if(!offs.empty() && g.chance(many ? 9 : 1, 10))
        {   // the same entries serve several blocks
            auto it = offs.begin(); std::advance(it, (size_t)g.below(offs.size())); u32 from = blocks[it->first].first; if(blocks[it->first].second - from == blocks[i].second - blocks[i].first) { for(u32 k = 0; k <= blocks[i].second - blocks[i].first; ++k) m[blocks[i].first + k] = Msg(m[from + k]); p32(head, 4 + 12 * i, blocks[i].first); p32(head, 8 + 12 * i, blocks[i].second); p32(head, 12 + 12 * i, it->second); g.label("shared entries"); continue; }
        }
        if(g.chance(1, 4)) body += g.bytes(4 * (size_t)g.below(3)); offs[i] = (u32)(head.size() + body.size()); p32(head, 4 + 12 * i, blocks[i].first); p32(head, 8 + 12 * i, blocks[i].second); p32(head, 12 + 12 * i, (u32)(head.size() + body.size()));
        for(u64 id = blocks[i].first; id <= blocks[i].second; ++id) { Msg x; x.uni = g.flip(); Str t; if(x.uni) { x.w = wtext(g, 12).substr(0, 0x7f00); t = u16le(x.w); } else { x.a = huge ? Str((size_t)g.range(0x4000, 0xfff0), 'h') : g.chance(1, 3) ? g.bytes((size_t)g.small(20)) : g.text(0, 20); t = x.a; } if(pad) { size_t to = t.size() + (x.uni ? 2 : 1); to = (to + 3) & ~(size_t)3; while(t.size() < to) { t += '\0'; if(!x.uni) x.a += '\0'; else { t += '\0'; x.w += L'\0'; } } } if(x.uni == false && (t.size() & 1) && g.flip()) { t += '\0'; x.a += '\0'; } body += le<u16>((u16)(t.size() + 4)) + le<u16>((u16)((x.uni ? 1 : 0) | (g.chance(1, 10) ? g.u16any() & 0xfffe : 0))) + t; auto strip = [](auto& q) { while(!q.empty() && !q.back()) q.pop_back(); }; strip(x.w); strip(x.a); m[(u32)id] = x; }
        last = std::max(last, head.size() + body.size());
    }
    Str d = head + body; u32 id = g.pick({1u, 0u, 300u}), lang = g.pick({1033u, 0u}); for(auto& b : blocks) o << " " << hx(b.first) << ".." << hx(b.second); o << " " << d.size() << " bytes" << (pad ? " padded" : ""); g.note("blocks" + o.str());
    resource_directory dir; pe_resource_manager v(dir); v.add_resource(d + (g.chance(1, 4) ? g.bytes((size_t)g.below(8)) : Str()), pe_resource_viewer::resource_message_table, id, lang); save(g, dir, "messages.reload"); resource_message_list_reader r(v); g.label("message table"); g.label(std::to_string(nb) + " blocks");
    for(int by = 0; by < 2; ++by)
    {
        resource_message_list got; try { got = by ? r.get_message_table_by_id(id, 0) : r.get_message_table_by_id_lang(lang, id); } catch(const pe_exception& e) { fail("messages.read", Str("a valid message table was refused: ") + e.what()); }
        CHECK(got.size() == m.size(), "messages.count", got.size() << " messages, expected " << m.size());
        for(auto& x : m) { auto it = got.find(x.first); CHECK(it != got.end(), "messages.id", "message " << hx(x.first) << " is missing"); CHECK(it->second.is_unicode() == x.second.uni, "messages.kind", "message " << hx(x.first) << " unicode: " << it->second.is_unicode()); if(x.second.uni) CHECK(it->second.get_unicode_string() == x.second.w, "messages.text", "message " << hx(x.first) << " is '" << utf(it->second.get_unicode_string()) << "', expected '" << utf(x.second.w) << "'"); else CHECK(it->second.get_ansi_string() == x.second.a, "messages.text", "message " << hx(x.first) << " is '" << hex(it->second.get_ansi_string()) << "', expected '" << hex(x.second.a) << "'"); }
    }
    { message_table_item it; CHECK(!it.is_unicode() && it.get_ansi_string().empty(), "messages.item", "default item"); for(int k = 0; k < 3; ++k) if(g.flip()) { W w = wtext(g, 6); it.set_string(w + W((size_t)g.below(3), L'\0')); while(!w.empty() && !w.back()) w.pop_back(); CHECK(it.is_unicode() && it.get_unicode_string() == w && it.get_ansi_string().empty(), "messages.item", "item set to a Unicode string"); } else { Str a = g.text(0, 6); it.set_string(a + Str((size_t)g.below(3), 0)); CHECK(!it.is_unicode() && it.get_ansi_string() == a && it.get_unicode_string().empty(), "messages.item", "item set to an ANSI string"); } }
    CHECK(throws_pe([&] { r.get_message_table_by_id(id, 1); }) && throws_pe([&] { r.get_message_table_by_id_lang(7, id); }) && throws_pe([&] { r.get_message_table_by_id(id + 1); }), "messages.absent", "an absent message table was found"); if(m.size() > 1) g.nontrivial();
    Str bad = d; Str why; u32 b = nb ? (u32)g.below(nb) : 0;
    switch(g.below(6))
    {
    case 5: { if(!nb) return; u32 at = (u32)g32(d, 12 + 12 * b); if(!(d[at + 2] & 1)) return; p16(bad, at, (u16)(g16(d, at) + 1)); if(at + g16(d, at) >= d.size()) bad += 'x'; why = "Unicode entry of an odd length"; break; }
    case 0: { size_t cut = g.flip() && last > 8 ? last - 1 - (size_t)g.below(8) : (size_t)g.below(last); bad.resize(cut); why = "cut to " + std::to_string(cut); break; }
    case 1: if(!nb) return; p32(bad, 4 + 12 * b + 8, (u32)g.edge(d.size() - 3, 0xffffffff)); why = "entries beyond the resource"; break;
    case 2: if(!nb || blocks[b].first == 0) return; p32(bad, 4 + 12 * b + 4, (u32)g.below(blocks[b].first)); why = "reversed block"; break;
    case 3: p32(bad, 0, (u32)g.range((d.size() - 4) / 12 + 1, g.flip() ? 0xffffffff : (d.size() - 4) / 12 + 3)); why = "too many blocks"; break;
    default: { if(!nb) return; u32 at = (u32)(u8)d[12 + 12 * b] | (u32)(u8)d[13 + 12 * b] << 8 | (u32)(u8)d[14 + 12 * b] << 16; u16 len = (u16)g.below(4); if(g.flip()) { if(d.size() - at >= 65535) return; len = (u16)g.range(d.size() - at + 1, 65535); } p16(bad, at, len); why = "entry of length " + std::to_string(len); break; }
    }
    g.note("broken: " + why); v.add_resource(bad, pe_resource_viewer::resource_message_table, 77, 0); CHECK(throws_pe([&] { r.get_message_table_by_id(77); }), "messages.broken", "a broken message table was accepted: " << why);
}
static void run(Gen& g) { g.flip() ? message_tables(g) : string_tables(g); }
const pbt::PropInfo pbt::prop_info = {"C19", "String tables (any ids, languages, characters, empty strings) and message tables (0..5 blocks of any ids up to 0xffffffff, ANSI and Unicode entries, padded or not) laid out by a reference writer, read by id, language and index, also after saving; cut and broken ones must be refused. Non-trivial: at least two strings or messages.", run, 30000, 2000000, 0, 0, 20};
