// C16: icons and cursors put into resources come back exactly, whatever was added and removed before.
#include "gen_pe.h"
#include "pe_bliss_resources.h"
using namespace ref;
struct K { bool named; std::wstring name; u32 id; bool operator<(const K& o) const { return std::tie(named, name, id) < std::tie(o.named, o.name, o.id); } };
struct Pic { u8 w, h, cc, res; u16 a, b; Str data; u32 id = 0; };        // a, b: planes and bit count, or the hotspot
struct Group { u16 hres, htype; std::vector<Pic> pics; u32 cp; };
typedef std::pair<K, u32> GK;
struct Kind { std::map<GK, Group> groups; std::map<std::pair<u32, u32>, Str> loose; std::map<K, std::vector<u32>> order; };  // loose: (id, language) of pictures in no group

static Str show(const K& k) { if(!k.named) return std::to_string(k.id); Str r = "'"; for(wchar_t c : k.name) r += c < 128 ? (char)c : '?'; return r + "'"; }
static Str file_of(u16 hres, u16 htype, const std::vector<Pic>& v, bool cur)
{
    Str b = le<u16>(hres) + le<u16>(htype) + le<u16>((u16)v.size()); u32 off = 6 + 16 * (u32)v.size();
    for(const Pic& p : v) { b += Str(1, (char)p.w) + Str(1, (char)p.h) + Str(1, cur ? 0 : (char)p.cc) + Str(1, cur ? 0 : (char)p.res) + le<u16>(p.a) + le<u16>(p.b) + le<u32>((u32)p.data.size()) + le<u32>(off); off += (u32)p.data.size(); }
    for(const Pic& p : v) b += p.data; return b;
}
static Str group_of(const Group& q, bool cur)
{
    Str b = le<u16>(q.hres) + le<u16>(q.htype) + le<u16>((u16)q.pics.size());
    for(const Pic& p : q.pics) { if(cur) b += le<u16>(p.w) + le<u16>((u16)(p.h * 2)) + le<u16>(0) + le<u16>(0) + le<u32>((u32)p.data.size() + 4); else b += Str(1, (char)p.w) + Str(1, (char)p.h) + Str(1, (char)p.cc) + Str(1, (char)p.res) + le<u16>(p.a) + le<u16>(p.b) + le<u32>((u32)p.data.size()); b += le<u16>((u16)p.id); }
    return b;
}
static void compare(pe_resource_viewer& v, const Kind& k, bool cur, const std::vector<K>& keys, const std::vector<u32>& langs)
{
    resource_cursor_icon_reader r(v); typedef pe_resource_viewer V; auto GT = cur ? V::resource_cursor_group : V::resource_icon_group; auto PT = cur ? V::resource_cursor : V::resource_icon; const char* what = cur ? "cursor" : "icon";
    auto get = [&](const K& key, u32 lang) { return key.named ? (cur ? r.get_cursor_by_name(lang, key.name) : r.get_icon_by_name(lang, key.name)) : (cur ? r.get_cursor_by_id_lang(lang, key.id) : r.get_icon_by_id_lang(lang, key.id)); };
    auto geti = [&](const K& key, u32 i) { return key.named ? (cur ? r.get_cursor_by_name(key.name, i) : r.get_icon_by_name(key.name, i)) : (cur ? r.get_cursor_by_id(key.id, i) : r.get_icon_by_id(key.id, i)); };
    std::map<u32, std::set<u32>> ids; for(auto& l : k.loose) ids[l.first.first].insert(l.first.second); for(auto& q : k.groups) for(const Pic& p : q.second.pics) ids[p.id].insert(q.first.second);
    for(const K& key : keys)
    {
        u32 n = 0;
        for(u32 lang : langs)
        {
            auto it = k.groups.find({key, lang}); Str s; bool thr = false; Str msg; try { s = get(key, lang); } catch(const pe_exception& e) { thr = true; msg = e.what(); }
            CHECK(thr == (it == k.groups.end()), "icon.get", what << " group " << show(key) << " language " << lang << (thr ? " cannot be read: " + msg : Str(" is still there"))); if(thr) continue; ++n;
            Str w = file_of(it->second.hres, it->second.htype, it->second.pics, cur); CHECK(s == w, "icon.file", what << " file of group " << show(key) << " language " << lang << " is " << hex(s, 80) << ", expected " << hex(w, 80));
            resource_data_info d = key.named ? v.get_resource_data_by_name(lang, GT, key.name) : v.get_resource_data_by_id(lang, GT, key.id); CHECK(d.get_data() == group_of(it->second, cur), "icon.group", what << " group resource is " << hex(d.get_data(), 64) << ", expected " << hex(group_of(it->second, cur), 64)); CHECK_EQ(d.get_codepage(), it->second.cp, "icon.codepage");
        }
        if(n) { auto l = key.named ? v.list_resource_languages(GT, key.name) : v.list_resource_languages(GT, key.id); CHECK_EQ((u32)l.size(), n, "icon.languages"); for(u32 i = 0; i <= n; ++i) { Str s; bool thr = throws_pe([&] { s = geti(key, i); }); CHECK(thr == (i == n), "icon.index", what << " group " << show(key) << " with language index " << i << " of " << n << (thr ? " is refused" : " is found")); if(!thr) CHECK(s == get(key, l[i]), "icon.index", what << " group " << show(key) << " read by index " << i << " differs from its language " << l[i]); } }
    }
    std::vector<u32> have; if(v.resource_exists(PT)) have = v.list_resource_ids(PT); std::sort(have.begin(), have.end()); std::vector<u32> want; for(auto& i : ids) want.push_back(i.first); CHECK(have == want, "icon.ids", have.size() << " " << what << " ids, expected " << want.size() << (have.empty() ? Str() : ", last " + std::to_string(have.back())));
    for(auto& i : ids) { auto l = v.list_resource_languages(PT, i.first); CHECK(std::set<u32>(l.begin(), l.end()) == i.second && l.size() == i.second.size(), "icon.ids", "languages of " << what << " " << i.first); }
    for(auto& l : k.loose) { CHECK(v.get_resource_data_by_id(l.first.second, PT, l.first.first).get_data() == l.second, "icon.overwritten", what << " " << l.first.first << " which was there before has other data"); CHECK(throws_pe([&] { cur ? r.get_single_cursor_by_id_lang(l.first.second, l.first.first) : r.get_single_icon_by_id_lang(l.first.second, l.first.first); }), "icon.single", what << " without a group"); }
    for(auto& q : k.groups) for(const Pic& p : q.second.pics)
    {
        Str raw = v.get_resource_data_by_id(q.first.second, PT, p.id).get_data(); CHECK(raw == (cur ? le<u16>(p.a) + le<u16>(p.b) + p.data : p.data), "icon.data", "data of " << what << " " << p.id << " is " << hex(raw, 32));
        Str w = file_of(q.second.hres, q.second.htype, {p}, cur); u32 lang = q.first.second; try { Str s = cur ? r.get_single_cursor_by_id_lang(lang, p.id) : r.get_single_icon_by_id_lang(lang, p.id); CHECK(s == w, "icon.single", "single " << what << " " << p.id << " is " << hex(s, 64) << ", expected " << hex(w, 64)); } catch(const pe_exception& e) { fail("icon.single", Str("single picture cannot be read: ") + e.what()); }
        auto l = v.list_resource_languages(PT, p.id); for(u32 i = 0; i < l.size(); ++i) if(l[i] == lang) CHECK((cur ? r.get_single_cursor_by_id(p.id, i) : r.get_single_icon_by_id(p.id, i)) == w, "icon.single", "single " << what << " " << p.id << " by index " << i); CHECK(throws_pe([&] { cur ? r.get_single_cursor_by_id(p.id, (u32)l.size()) : r.get_single_icon_by_id(p.id, (u32)l.size()); }), "icon.single", "index beyond the languages");
    }
}
static void run(Gen& g)
{
    std::vector<K> keys = {{true, L"MAIN", 0}, {true, L"\x042f", 0}, {false, L"", 1}, {false, L"", 32512}}; std::vector<u32> langs = {1033, 0, 1049}; resource_directory dir; pe_resource_manager v(dir); Kind k[2]; std::ostringstream o; size_t nops = 1 + (size_t)g.small(14), adds = 0, rem = 0;
    for(int c = 0; c < 2; ++c) if(g.flip()) { size_t n = (size_t)g.small(6); for(size_t i = 0; i < n; ++i) { u32 id = g.chance(1, 12) ? (u32)g.range(65520, 65535) : g.chance(1, 6) ? (u32)g.below(60000) : (u32)g.range(1, 12), lang = g.pick(langs); Str d = g.bytes((size_t)g.below(12)); k[c].loose[{id, lang}] = d; v.add_resource(d, c ? pe_resource_viewer::resource_cursor : pe_resource_viewer::resource_icon, id, lang); o << (c ? " cursor " : " icon ") << id << "/" << lang; } }
    for(int c = 0; c < 2; ++c) if(g.chance(1, 10)) { v.add_resource("named", c ? pe_resource_viewer::resource_cursor : pe_resource_viewer::resource_icon, L"PICTURE", g.pick(langs)); o << (c ? " named cursor" : " named icon"); g.label("named picture resource"); }
    for(int c = 0; c < 2; ++c) if(g.chance(1, 3))
    {   // groups made by somebody else: pictures of different languages may have one id
        size_t n = (size_t)g.range(1, 3); for(size_t i = 0; i < n; ++i)
        {
            GK gk{g.pick(keys), g.pick(langs)}; if(k[c].groups.count(gk)) continue; Group q{0, (u16)(c + 1), {}, g.u32any()}; std::set<u32> mine;
            for(size_t j = 1 + (size_t)g.small(3); j; --j) { Pic p; p.w = (u8)g.below(128); p.h = (u8)g.below(128); p.cc = c ? 0 : (u8)g.below(256); p.res = 0; p.a = g.u16any(); p.b = g.u16any(); p.data = g.bytes(1 + (size_t)g.small(20)); p.id = (u32)g.range(1, 9); bool taken = !mine.insert(p.id).second || k[c].loose.count({p.id, gk.second}); for(auto& x : k[c].groups) if(x.first.second == gk.second) for(Pic& y : x.second.pics) taken |= y.id == p.id; if(!taken) q.pics.push_back(p); }
            if(q.pics.empty()) continue; typedef pe_resource_viewer V; auto PT = c ? V::resource_cursor : V::resource_icon; auto GT = c ? V::resource_cursor_group : V::resource_icon_group;
            for(Pic& p : q.pics) v.add_resource(c ? le<u16>(p.a) + le<u16>(p.b) + p.data : p.data, PT, p.id, gk.second, g.u32any());
            if(gk.first.named) v.add_resource(group_of(q, c != 0), GT, gk.first.name, gk.second, q.cp); else v.add_resource(group_of(q, c != 0), GT, gk.first.id, gk.second, q.cp);
            k[c].groups[gk] = q; o << " given " << (c ? "cursors " : "icons ") << show(gk.first) << "/" << gk.second << ":" << q.pics.size(); g.label("groups from elsewhere");
        }
    }
    for(size_t op = 0; op < nops; ++op)
    {
        bool cur = g.flip(); Kind& q = k[cur]; K key = g.pick(keys); u32 lang = g.pick(langs); GK gk{key, lang}; resource_cursor_icon_writer w(v);
        if(g.chance(1, 4))
        {
            o << " -" << (cur ? "cursors " : "icons ") << show(key) << "/" << lang; bool has = q.groups.count(gk), x = false; try { x = key.named ? (cur ? w.remove_cursor_group(key.name, lang) : w.remove_icon_group(key.name, lang)) : (cur ? w.remove_cursor_group(key.id, lang) : w.remove_icon_group(key.id, lang)); } catch(const pe_exception&) { }
            CHECK(x == has, "icon.removed", "removing a group returned " << x); if(has) { q.groups.erase(gk); ++rem; } 
        }
        else
        {
            std::vector<Pic> add; size_t n = g.chance(1, 2500) ? (size_t)g.range(250, 520) : g.chance(1, 40) ? (size_t)g.range(10, 60) : 1 + (size_t)g.small(3); Str why; u16 hres = g.chance(1, 4) ? g.u16any() : 0, htype = g.chance(1, 8) ? g.u16any() : cur ? 2 : 1;
            for(size_t i = 0; i < n; ++i) { Pic p; p.w = (u8)g.edge(0, 255); p.h = (u8)g.edge(0, 255); p.cc = (u8)g.below(256); p.res = (u8)g.below(256); p.a = g.u16any(); p.b = g.u16any(); p.data = g.bytes(1 + crowd(g, 20, 0x12000, 600)); add.push_back(p); }
            Str f = file_of(hres, htype, add, cur); if(cur) for(size_t i = 0; i < n; ++i) { f[6 + 16 * i + 2] = (char)add[i].cc; f[6 + 16 * i + 3] = (char)add[i].res; }
            if(g.chance(1, 3))
            {   // pictures in any order in the file, with gaps and shared bytes
                Str body; std::vector<size_t> ord(n); for(size_t i = 0; i < n; ++i) ord[i] = i; for(size_t i = n; i > 1; --i) std::swap(ord[i - 1], ord[(size_t)g.below(i)]);
                for(size_t i : ord) { body += g.bytes((size_t)g.below(4)); u32 at = (u32)body.size(); size_t same = body.find(add[i].data); if(same != Str::npos && g.flip()) at = (u32)same; else body += add[i].data; p32(f, 6 + 16 * i + 12, 6 + 16 * (u32)n + at); }
                f.resize(6 + 16 * n); f += body; 
            }
            if(g.chance(1, 10)) switch(g.below(6))
            {
            case 0: p16(f, 4, 0); why = "no pictures"; break;
            case 1: p32(f, 6 + 16 * g.below(n) + 8, 0); why = "empty picture"; break;
            case 2: { size_t i = (size_t)g.below(n); p32(f, 6 + 16 * i + 12, (u32)g.range(f.size() - add[i].data.size() + 1, g.flip() ? f.size() : 0xffffffff)); why = "picture beyond the file"; break; }
            case 3: p32(f, 6 + 16 * g.below(n) + 12, (u32)g.below(6 + 16 * n)); why = "picture inside the headers"; break;
            case 4: f.resize((size_t)g.below(6 + 16 * n)); why = "truncated headers"; break;
            default: p32(f, 6 + 16 * g.below(n) + 8, (u32)g.range(f.size(), 0xffffffff)); why = "picture longer than the file"; break;
            }
            bool freeids = g.flip(); u32 cp = g.u32any(); o << " +" << n << (cur ? " cursors " : " icons ") << show(key) << "/" << lang << (freeids ? " free ids " : " after max ") << why; g.note("history:" + o.str());
            std::set<u32> used; for(auto& l : q.loose) used.insert(l.first.first); for(auto& x : q.groups) for(const Pic& p : x.second.pics) used.insert(p.id);
            u32 last = used.empty() ? 0 : *used.rbegin(), next = 1; for(Pic& p : add) { if(freeids) { while(used.count(next)) ++next; p.id = next++; } else p.id = ++last; } bool full = add.back().id > 65535;
            auto mode = freeids ? resource_cursor_icon_writer::icon_place_free_ids : resource_cursor_icon_writer::icon_place_after_max_icon_id;
            Str was = !full && why.empty() ? Str() : tree_text(dir); bool thr = throws_pe([&] { key.named ? (cur ? w.add_cursor(f, key.name, lang, mode, cp) : w.add_icon(f, key.name, lang, mode, cp)) : (cur ? w.add_cursor(f, key.id, lang, mode, cp) : w.add_icon(f, key.id, lang, mode, cp)); });
            CHECK(thr == (full || !why.empty()), "icon.accept", (thr ? "a valid file was refused" : "accepted a file with " + why + (full ? "no free id left" : "")));
            if(thr) CHECK(tree_text(dir) == was, "icon.refused-change", "the resources were changed although the file was refused");
            if(!thr) { auto it = q.groups.find(gk); if(it == q.groups.end()) it = q.groups.insert({gk, Group{hres, htype, {}, cp}}).first; it->second.pics.insert(it->second.pics.end(), add.begin(), add.end()); ++adds; } else g.label(full ? "no free id left" : "refused: " + why);
        }
        if(op + 1 == nops || g.chance(1, 4))
        {
            g.note("history:" + o.str());
            if(g.chance(1, 4) && !dir.get_entry_list().empty()) { bool p64 = g.flip(); Pe pe; if(p64) pe.reset(new pe_base(pe_properties_64())); else pe.reset(new pe_base(pe_properties_32())); section s; s.set_name(".rsrc"); s.set_raw_data(Str(1, 0)); section& at = pe->add_section(s); rebuild_resources(*pe, dir, at); dir = get_resources(*must_load(rebuilt(*pe), p64, "icon.reload")); g.label("saved and read back"); o << " save"; }
            compare(v, k[0], false, keys, langs); compare(v, k[1], true, keys, langs);
            if(g.chance(1, 4))
            {   // a group whose resource is shorter than it says: nothing is read from it, added to it or removed with it
                bool cur = g.flip(), named = g.flip(); typedef pe_resource_viewer V; auto GT = cur ? V::resource_cursor_group : V::resource_icon_group; u32 lang = g.pick(langs); std::vector<Pic> add(1); add[0].w = add[0].h = 16; add[0].cc = add[0].res = 0; add[0].a = add[0].b = 1; add[0].data = "x"; resource_cursor_icon_writer w(v); resource_cursor_icon_reader r(v);
                u32 n = (u32)g.range(1, 4); Group q{0, (u16)(cur + 1), {}, 0}; for(u32 i = 0; i < n; ++i) { add[0].id = i + 1; q.pics.push_back(add[0]); } Str b = group_of(q, cur); b.resize((size_t)g.below(b.size())); if(named) v.add_resource(b, GT, L"BROKEN", lang); else v.add_resource(b, GT, 777, lang); Str f = file_of(0, cur + 1, add, cur);
                CHECK(throws_pe([&] { named ? (cur ? r.get_cursor_by_name(lang, L"BROKEN") : r.get_icon_by_name(lang, L"BROKEN")) : (cur ? r.get_cursor_by_id_lang(lang, 777) : r.get_icon_by_id_lang(lang, 777)); }), "icon.broken-group", "a group of " << b.size() << " bytes for " << n << " pictures was read");
                CHECK(throws_pe([&] { named ? (cur ? w.add_cursor(f, L"BROKEN", lang) : w.add_icon(f, L"BROKEN", lang)) : (cur ? w.add_cursor(f, 777, lang) : w.add_icon(f, 777, lang)); }), "icon.broken-group", "pictures were added to a group of " << b.size() << " bytes for " << n);
                CHECK(throws_pe([&] { named ? (cur ? w.remove_cursor_group(L"BROKEN", lang) : w.remove_icon_group(L"BROKEN", lang)) : (cur ? w.remove_cursor_group(777, lang) : w.remove_icon_group(777, lang)); }), "icon.broken-group", "a group of " << b.size() << " bytes for " << n << " pictures was removed");
                // pictures of no group, looked up in all of them; cursors which are too short to have a hotspot
                auto CT = cur ? V::resource_cursor : V::resource_icon; Str pic = g.bytes((size_t)g.below(8)); v.add_resource(pic, CT, 60001, lang); CHECK(throws_pe([&] { g.flip() ? (cur ? r.get_single_cursor_by_id_lang(lang, 60001) : r.get_single_icon_by_id_lang(lang, 60001)) : (cur ? r.get_single_cursor_by_id(60001) : r.get_single_icon_by_id(60001)); }), "icon.broken-group", "a picture of no group was read");
                if(cur && pic.size() < 4) { Group s1{0, 2, {}, 0}; add[0].id = 60001; s1.pics.push_back(add[0]); v.add_resource(group_of(s1, true), GT, 5, lang == 0 ? 1 : lang); v.add_resource(pic, CT, 60001, lang == 0 ? 1 : lang); u32 l2 = lang == 0 ? 1 : lang; CHECK(throws_pe([&] { r.get_cursor_by_id_lang(l2, 5); }) && throws_pe([&] { r.get_cursor_by_id(5); }) && throws_pe([&] { r.get_single_cursor_by_id_lang(l2, 60001); }) && throws_pe([&] { r.get_single_cursor_by_id(60001); }), "icon.short-cursor", "a cursor of " << pic.size() << " bytes was read"); v.remove_resource(GT, 5, l2); g.label("cursor without a hotspot"); }
                v.remove_resource(CT, 60001);
                CHECK((named ? v.get_resource_data_by_name(lang, GT, L"BROKEN") : v.get_resource_data_by_id(lang, GT, 777)).get_data() == b, "icon.broken-group", "the resource of the broken group changed"); if(named) v.remove_resource(GT, L"BROKEN", lang); else v.remove_resource(GT, 777, lang);
                // a group of no pictures is read, removed and added to
                Group none{g.u16any(), (u16)(cur + 1), {}, 0}; v.add_resource(group_of(none, cur), GT, 777, lang); CHECK((cur ? r.get_cursor_by_id_lang(lang, 777) : r.get_icon_by_id_lang(lang, 777)) == file_of(none.hres, cur + 1, {}, cur), "icon.empty-group", "a group of no pictures was read wrongly");
                if(g.flip()) { add[0].data = "z"; Str f1 = file_of(0, cur + 1, {add[0]}, cur); if(!throws_pe([&] { cur ? w.add_cursor(f1, 777, lang) : w.add_icon(f1, 777, lang); })) CHECK((cur ? r.get_cursor_by_id_lang(lang, 777) : r.get_icon_by_id_lang(lang, 777)).substr(6) == f1.substr(6), "icon.empty-group", "a picture was added wrongly to a group of none"); }
                CHECK((cur ? w.remove_cursor_group(777, lang) : w.remove_icon_group(777, lang)) && throws_pe([&] { v.get_resource_data_by_id(lang, GT, 777); }), "icon.empty-group", "a group of no pictures was not removed");
                g.label("group shorter than it says"); compare(v, k[0], false, keys, langs); compare(v, k[1], true, keys, langs);
            }
        }
    }
    if(adds) g.nontrivial(); if(rem) g.label("groups removed");
}
const pbt::PropInfo pbt::prop_info = {"C16", "Histories of icon and cursor files (1..60 pictures, any order and overlap of picture data, any field values, broken files) added to groups by name, id and language in both placement modes and removed again, next to pictures that were there before; every group, single picture, id and language index is read back after random steps and after saving the image. Non-trivial: at least one file was added.", run, 20000, 1500000, 0, 0, 20};
