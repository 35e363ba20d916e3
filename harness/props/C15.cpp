// C15: any history of resource edits leaves exactly the resources that were added and not removed, as every query shows.
#include "gen_pe.h"
#include "pe_resource_manager.h"
using namespace ref;
struct K { bool named; std::wstring name; u32 id; bool operator<(const K& o) const { return std::tie(named, name, id) < std::tie(o.named, o.name, o.id); } bool operator==(const K& o) const { return named == o.named && name == o.name && id == o.id; } };
struct D { Str data; u32 cp; };
struct Name { u32 ts = 0; std::map<u32, D> langs; };
struct Root { u32 ts = 0; std::map<K, Name> names; };
typedef std::map<K, Root> Model;
typedef pe_resource_viewer::resource_type RT;

static std::string show(const K& k) { if(!k.named) return std::to_string(k.id); Str r = "'"; for(wchar_t c : k.name) r += c < 128 ? (char)c : '?'; return r + "'"; }
static K gen_key(Gen& g, bool root)
{
    K k{g.flip(), L"", 0};
    if(k.named) k.name = g.pick({std::wstring(L"A"), std::wstring(L"B"), std::wstring(L"AA"), std::wstring(L"a"), std::wstring(L"\x0416\x4e2d"), std::wstring(L"1"), std::wstring(), std::wstring(L"A\0B", 3), std::wstring(L"A\0", 2)});
    else k.id = root ? g.pick({1u, 3u, 6u, 10u, 24u}) : g.pick({1u, 2u, 0u, 65535u, 300u});
    return k;
}
static void compare(pe_resource_viewer& v, const Model& m, const std::vector<K>& roots, const std::vector<K>& names, const std::vector<u32>& pool)
{
    auto sorted = [](auto l) { std::sort(l.begin(), l.end()); return l; };
    std::vector<u32> ids; for(auto& r : m) if(!r.first.named) ids.push_back(r.first.id); CHECK(sorted(v.list_resource_types()) == sorted(ids), "resman.types", "list of resource types has " << v.list_resource_types().size() << " entries, expected " << ids.size());
    CHECK(v.get_root_directory().get_entry_list().size() == m.size(), "resman.roots", v.get_root_directory().get_entry_list().size() << " root entries, expected " << m.size());
    for(const K& r : roots)
    {
        RT t = (RT)r.id; auto it = m.find(r); bool has = it != m.end(); CHECK((r.named ? v.resource_exists(r.name) : v.resource_exists(t)) == has, "resman.exists", "resource_exists(" << show(r) << ") is " << !has);
        if(!has)
        {
            CHECK(throws_pe([&] { r.named ? v.list_resource_names(r.name) : v.list_resource_names(t); }) && throws_pe([&] { r.named ? v.list_resource_ids(r.name) : v.list_resource_ids(t); }) && throws_pe([&] { r.named ? v.get_resource_count(r.name) : v.get_resource_count(t); }), "resman.absent", "lists of absent root " << show(r));
            const K& n = names[0]; CHECK(throws_pe([&] { r.named ? (n.named ? v.get_resource_data_by_name(r.name, n.name) : v.get_resource_data_by_id(r.name, n.id)) : (n.named ? v.get_resource_data_by_name(t, n.name) : v.get_resource_data_by_id(t, n.id)); }), "resman.absent", "data of absent root " << show(r)); continue;
        }
        const Root& R = it->second; std::vector<std::wstring> wn; std::vector<u32> wi; for(auto& n : R.names) if(n.first.named) wn.push_back(n.first.name); else wi.push_back(n.first.id);
        auto ln = r.named ? v.list_resource_names(r.name) : v.list_resource_names(t); auto li = r.named ? v.list_resource_ids(r.name) : v.list_resource_ids(t);
        CHECK(sorted(ln) == sorted(wn), "resman.names", "names under " << show(r) << ": " << ln.size() << ", expected " << wn.size()); CHECK(sorted(li) == sorted(wi), "resman.ids", "ids under " << show(r) << ": " << li.size() << ", expected " << wi.size());
        CHECK_EQ(r.named ? v.get_resource_count(r.name) : v.get_resource_count(t), (u32)R.names.size(), "resman.count");
        const resource_directory_entry& re = r.named ? v.get_root_directory().entry_by_name(r.name) : v.get_root_directory().entry_by_id(r.id); CHECK_EQ(re.get_resource_directory().get_timestamp(), R.ts, "resman.timestamp");
        for(const K& n : names)
        {
            auto jt = R.names.find(n); bool there = jt != R.names.end(); std::vector<u32> langs; u32 cnt = 0; bool thr = false;
            try { langs = r.named ? (n.named ? v.list_resource_languages(r.name, n.name) : v.list_resource_languages(r.name, n.id)) : (n.named ? v.list_resource_languages(t, n.name) : v.list_resource_languages(t, n.id)); } catch(const pe_exception&) { thr = true; }
            bool thr2 = throws_pe([&] { cnt = r.named ? (n.named ? v.get_language_count(r.name, n.name) : v.get_language_count(r.name, n.id)) : (n.named ? v.get_language_count(t, n.name) : v.get_language_count(t, n.id)); });
            CHECK(thr == !there && thr2 == !there, "resman.languages", "languages of " << show(r) << "/" << show(n) << (there ? " are missing" : " are listed although it was removed or never added")); if(!there) continue;
            const Name& N = jt->second; std::vector<u32> wl; for(auto& l : N.langs) wl.push_back(l.first); CHECK(sorted(langs) == wl, "resman.languages", show(r) << "/" << show(n) << " has " << langs.size() << " languages, expected " << wl.size()); CHECK_EQ(cnt, (u32)wl.size(), "resman.languages");
            CHECK_EQ((n.named ? re.get_resource_directory().entry_by_name(n.name) : re.get_resource_directory().entry_by_id(n.id)).get_resource_directory().get_timestamp(), N.ts, "resman.timestamp");
            for(u32 i = 0; i <= langs.size(); ++i)
            {
                Str data; u32 cp = 0; bool t1 = throws_pe([&] { resource_data_info x = r.named ? (n.named ? v.get_resource_data_by_name(r.name, n.name, i) : v.get_resource_data_by_id(r.name, n.id, i)) : (n.named ? v.get_resource_data_by_name(t, n.name, i) : v.get_resource_data_by_id(t, n.id, i)); data = x.get_data(); cp = x.get_codepage(); });
                CHECK(t1 == (i == langs.size()), "resman.index", "data of " << show(r) << "/" << show(n) << " with index " << i << " of " << langs.size()); if(t1) continue;
                const D& d = N.langs.at(langs[i]); CHECK(data == d.data && cp == d.cp, "resman.data", "data of " << show(r) << "/" << show(n) << " with index " << i << " is " << hex(data, 16) << " codepage " << cp << ", expected " << hex(d.data, 16) << " codepage " << d.cp);
            }
            for(u32 lang : pool)
            {
                Str data; u32 cp = 0; bool t1 = throws_pe([&] { resource_data_info x = r.named ? (n.named ? v.get_resource_data_by_name(lang, r.name, n.name) : v.get_resource_data_by_id(lang, r.name, n.id)) : (n.named ? v.get_resource_data_by_name(lang, t, n.name) : v.get_resource_data_by_id(lang, t, n.id)); data = x.get_data(); cp = x.get_codepage(); });
                auto d = N.langs.find(lang); CHECK(t1 == (d == N.langs.end()), "resman.language", "language " << lang << " of " << show(r) << "/" << show(n)); if(!t1) CHECK(data == d->second.data && cp == d->second.cp, "resman.data", "data of " << show(r) << "/" << show(n) << "/" << lang << " is " << hex(data, 16) << ", expected " << hex(d->second.data, 16));
            }
        }
    }
}
static void run(Gen& g)
{
    std::vector<K> roots, names; for(int i = 0; i < 5; ++i) roots.push_back(gen_key(g, true)); for(int i = 0; i < 4; ++i) names.push_back(gen_key(g, false));
    auto uniq = [](std::vector<K>& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }; std::vector<u32> langs = {0u, 9u, 1033u, 1049u, 65535u}; size_t bulk = 0; unsigned shape = 0;
    if(g.chance(1, 150))
    {   // dozens of types, hundreds of names of a type, or dozens of languages of a name are added first
        shape = (unsigned)g.below(3); bulk = (size_t)(shape == 1 ? g.range(20, 400) : g.range(10, 120)); g.label(shape == 0 ? "many types" : shape == 1 ? "many names" : "many languages"); roots.resize(shape == 0 ? 0 : 2); names.resize(shape == 1 ? 0 : 2);
        if(shape == 2) { langs.clear(); for(size_t i = 0; i < bulk; ++i) langs.push_back((u32)(i * 1021 % 65536)); } else for(size_t i = 0; i < bulk; ++i) { K k{g.flip(), L"", 0}; if(k.named) k.name = L"N" + std::to_wstring(i * 7); else k.id = (u32)(i * 97 % 65536); (shape == 0 ? roots : names).push_back(k); }
    }
    uniq(roots); uniq(names); for(size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[(size_t)g.below(i)]); if(bulk) bulk = shape == 0 ? roots.size() : shape == 1 ? names.size() : langs.size();
    Model m; resource_directory dir; std::unique_ptr<pe_resource_manager> v(new pe_resource_manager(dir)); std::ostringstream o; size_t nops = g.flip() ? 1 + (size_t)g.small(40) : (size_t)g.range(4, 30), adds = 0, removed = 0, saves = 0; nops += bulk; K bulk_root = roots[0], bulk_name = names[0];
    for(size_t op = 0; op < nops; ++op)
    {
        K r = g.pick(roots), n = g.pick(names); u32 lang = g.pick(langs); if(op < bulk) { r = shape == 0 ? roots[op] : bulk_root; n = shape == 1 ? names[op] : bulk_name; if(shape == 2) lang = langs[op]; } RT t = (RT)r.id;
        switch(op < bulk ? 0 : g.weighted({10, 3, 3, (unsigned)(bulk ? 0 : 1), 1}))
        {
        case 0:
        {
            Str data = g.bytes(crowd(g, 30, 70000, 400)); u32 cp = g.u32any(), ts = g.u32any(); o << " +" << show(r) << "/" << show(n) << "/" << lang << "(" << data.size() << ")";
            if(r.named) { if(n.named) v->add_resource(data, r.name, n.name, lang, cp, ts); else v->add_resource(data, r.name, n.id, lang, cp, ts); } else { if(n.named) v->add_resource(data, t, n.name, lang, cp, ts); else v->add_resource(data, t, n.id, lang, cp, ts); }
            auto a = m.insert({r, Root()}); if(a.second) a.first->second.ts = ts; auto b = a.first->second.names.insert({n, Name()}); if(b.second) b.first->second.ts = ts; b.first->second.langs[lang] = D{data, cp}; ++adds; break;
        }
        case 1:
        {
            bool x = r.named ? (n.named ? v->remove_resource(r.name, n.name, lang) : v->remove_resource(r.name, n.id, lang)) : (n.named ? v->remove_resource(t, n.name, lang) : v->remove_resource(t, n.id, lang)); bool w = false; o << " -" << show(r) << "/" << show(n) << "/" << lang;
            auto a = m.find(r); if(a != m.end()) { auto b = a->second.names.find(n); if(b != a->second.names.end()) { w = b->second.langs.erase(lang); if(b->second.langs.empty()) { a->second.names.erase(b); if(a->second.names.empty()) m.erase(a); } } }
            CHECK(x == w, "resman.removed", "remove_resource of one language returned " << x); removed += w; break;
        }
        case 2:
        {
            bool x = r.named ? (n.named ? v->remove_resource(r.name, n.name) : v->remove_resource(r.name, n.id)) : (n.named ? v->remove_resource(t, n.name) : v->remove_resource(t, n.id)); bool w = false; o << " -" << show(r) << "/" << show(n);
            auto a = m.find(r); if(a != m.end()) { w = a->second.names.erase(n); if(a->second.names.empty()) m.erase(a); } CHECK(x == w, "resman.removed", "remove_resource of one name returned " << x); removed += w; break;
        }
        case 3: { bool x = r.named ? v->remove_resource(r.name) : v->remove_resource_type(t), w = m.erase(r); o << " -" << show(r); CHECK(x == w, "resman.removed", "removal of a whole type returned " << x); removed += w; break; }
        default:
        {   // save the tree into an image and continue with what is read back
            if(m.empty()) break; o << " save"; ++saves; bool p64 = g.flip(); Pe pe; if(p64) pe.reset(new pe_base(pe_properties_64())); else pe.reset(new pe_base(pe_properties_32()));
            section s; s.set_name(".rsrc"); s.set_raw_data(Str(1, 0)); section& at = pe->add_section(s); g.flip() ? rebuild_resources(*pe, v->get_root_directory(), at) : rebuild_resources(*pe, dir, at, (u32)g.below(64));
            compare(*v, m, roots, names, langs); dir = get_resources(*must_load(rebuilt(*pe), p64, "resman.reload")); if(g.flip()) v.reset(new pe_resource_manager(dir)); break;
        }
        }
        if(op + 1 == nops || op + 1 == bulk || (op >= bulk && g.chance(1, bulk ? 16 : 4))) { g.note("history:" + o.str()); pe_resource_viewer w(dir); compare(g.flip() ? *v : w, m, roots, names, langs); }
    }
    if(adds && removed) g.nontrivial(); if(saves) g.label("saved and read back"); if(m.size() > 2) g.label("several roots"); if(removed > 3) g.label("several removals");
}
const pbt::PropInfo pbt::prop_info = {"C15", "Histories of up to 40 additions, replacements and removals (by type, root name, name, id and language) on a small pool of keys, with saves into an image and reloads in between; after random steps every list, count, lookup by language and by index is compared with a map. Non-trivial: at least one addition and one removal which found something.", run, 24000, 1500000, 0, 0, 20};
