// C18: version information: whatever is written reads back, the written block is well formed, blocks of other tools are read exactly, and the editor edits only what it is told to.
#include "gen_pe.h"
#include "pe_bliss_resources.h"
using namespace ref;
typedef std::wstring W; typedef std::map<W, W> SMap; typedef std::map<W, SMap> LMap; typedef std::multimap<u16, u16> TMap;
static W wtext(Gen& g, size_t max)
{
    W r; size_t n = (size_t)g.small(max); unsigned kind = g.weighted({3, 1, 1});
    for(size_t i = 0; i < n; ++i) r += (wchar_t)(kind == 0 ? g.range('A', 'z') : kind == 1 ? g.range(0x410, 0x44f) : g.pick<u64>({1, 0x7f, 0x80, 0xff, 0x100, 0x20ac, 0x4e2d, 0xd7ff, 0xe000, 0xfeff, 0xfffd}));
    return r;
}
static Str u16le(const W& w) { Str r; for(wchar_t c : w) r += le<u16>((u16)c); return r; }
static Str utf(const W& w) { Str r; for(wchar_t c : w) r += c < 128 && c >= 32 ? Str(1, (char)c) : "\\" + hx((u64)c); return r; }
static void pad4(Str& b) { while(b.size() % 4) b += '\0'; }
static u32 u32at(const Str& s, size_t p) { return (u32)(u8)s[p] | (u32)(u8)s[p + 1] << 8 | (u32)(u8)s[p + 2] << 16 | (u32)(u8)s[p + 3] << 24; }
static u16 u16at(const Str& s, size_t p) { return (u16)((u8)s[p] | (u8)s[p + 1] << 8); }
// strict reading of one block of VERSIONINFO
struct Blk { u32 at, len, vlen, type, value, end; W key; };
static Blk block(const Str& d, u32 at, u32 limit, const char* what)
{
    CHECK(at % 4 == 0 && at + 6 <= limit, "version.block", what << " block at " << at << " of " << limit); Blk b; b.at = at; b.len = u16at(d, at); b.vlen = u16at(d, at + 2); b.type = u16at(d, at + 4); b.end = at + b.len; CHECK(b.len >= 8 && b.end <= limit, "version.block", what << " block at " << at << " of length " << b.len << " leaves its parent, which ends at " << limit);
    u32 p = at + 6; for(;; p += 2) { CHECK(p + 2 <= b.end, "version.block", what << " key is not terminated"); u16 c = u16at(d, p); if(!c) break; b.key += (wchar_t)c; } b.value = (u32)up(p + 2, 4); return b;
}
static void strict(const Str& d, LMap& strings, TMap& tr, Str& fixed)
{
    CHECK(d.size() >= 6 && d.size() <= 65535, "version.block", "resource of " << d.size() << " bytes"); Blk r = block(d, 0, (u32)d.size(), "root"); CHECK(r.len == d.size() && r.key == L"VS_VERSION_INFO" && r.type == 0 && r.vlen == 52 && r.value + 52 <= d.size(), "version.root", "root block: length " << r.len << " of " << d.size() << ", type " << r.type << ", value " << r.vlen); fixed = d.substr(r.value, 52);
    for(u32 p = (u32)up(r.value + 52, 4); p < r.end;)
    {
        Blk c = block(d, p, r.end, "child"); CHECK(c.vlen == 0 && c.type == 1, "version.child", "value length " << c.vlen << " and type " << c.type << " of " << utf(c.key));
        if(c.key == L"StringFileInfo") for(u32 q = c.value; q < c.end;)
        {
            Blk t = block(d, q, c.end, "string table"); CHECK(t.vlen == 0 && t.type == 1 && !strings.count(t.key), "version.table", "string table " << utf(t.key)); SMap& sm = strings[t.key];
            for(u32 s = t.value; s < t.end;) { Blk x = block(d, s, t.end, "string"); CHECK(x.type == 1 && x.value + 2 * x.vlen <= x.end && x.vlen > 0, "version.string", "string " << utf(x.key) << " with value length " << x.vlen << " in a block of " << x.len); W v; for(u32 i = 0; i < x.vlen; ++i) v += (wchar_t)u16at(d, x.value + 2 * i); CHECK(v.back() == 0 && v.find(L'\0') == v.size() - 1, "version.string", "value of " << utf(x.key) << " is not terminated"); v.pop_back(); CHECK(!sm.count(x.key), "version.string", "string " << utf(x.key) << " twice"); sm[x.key] = v; s = (u32)up(x.end, 4); }
            q = (u32)up(t.end, 4);
        }
        else { CHECK(c.key == L"VarFileInfo", "version.child", "block " << utf(c.key)); for(u32 q = c.value; q < c.end;) { Blk t = block(d, q, c.end, "var"); CHECK(t.key == L"Translation" && t.type == 0 && t.vlen % 4 == 0 && t.value + t.vlen <= t.end, "version.var", "block " << utf(t.key) << " value length " << t.vlen); for(u32 i = 0; i < t.vlen; i += 4) tr.insert({u16at(d, t.value + i), u16at(d, t.value + i + 2)}); q = (u32)up(t.end, 4); } }
        p = (u32)up(c.end, 4);
    }
}
struct Fix { u32 v[11]; };   // file ms, ls, product ms, ls, mask, flags, os, type, subtype, date ms, ls
static Str fixed_of(const Fix& f) { Str b = le<u32>(0xFEEF04BD) + le<u32>(0x00010000); for(u32 x : f.v) b += le<u32>(x); return b; }
static void same_fixed(const file_version_info& i, const Fix& f)
{
    const u32 a[] = {i.get_file_version_ms(), i.get_file_version_ls(), i.get_product_version_ms(), i.get_product_version_ls(), 0, i.get_file_flags(), i.get_file_os_raw(), i.get_file_type_raw(), i.get_file_subtype(), i.get_file_date_ms(), i.get_file_date_ls()};
    for(int k = 0; k < 11; ++k) if(k != 4) CHECK(a[k] == f.v[k], "version.fixed", "field " << k << " of the fixed information is " << hx(a[k]) << ", expected " << hx(f.v[k]));
    auto vs = [](u32 m, u32 l) { std::ostringstream o; o << (m >> 16) << '.' << (m & 65535) << '.' << (l >> 16) << '.' << (l & 65535); return o.str(); };
    CHECK_EQ(i.get_file_version_string<char>(), vs(f.v[0], f.v[1]), "version.text"); CHECK_EQ(i.get_product_version_string<char>(), vs(f.v[2], f.v[3]), "version.text"); Str n = vs(f.v[0], f.v[1]); CHECK(i.get_file_version_string<wchar_t>() == W(n.begin(), n.end()), "version.text", "wide version string");
    bool fl[] = {i.is_debug(), i.is_prerelease(), i.is_patched(), i.is_private_build(), i.is_info_inferred(), i.is_special_build()}; for(int b = 0; b < 6; ++b) CHECK(fl[b] == ((f.v[5] >> b & 1) != 0), "version.flag", "flag " << b << " is " << fl[b]);
}
static const u32 OS[] = {0, 0x10000, 0x20000, 0x30000, 0x40000, 0x50000, 1, 2, 3, 4, 0x10001, 0x10004, 0x20002, 0x30003, 0x40004};
static const u32 TYPE[] = {0, 1, 2, 3, 4, 5, 7};
static Fix gen_fix(Gen& g) { Fix f; for(u32& x : f.v) x = g.u32any(); if(g.flip()) f.v[6] = OS[g.below(15)]; if(g.flip()) f.v[7] = TYPE[g.below(7)]; return f; }
static file_version_info info_of(Gen& g, const Fix& f)
{
    file_version_info i; i.set_file_version_ms(f.v[0]); i.set_file_version_ls(f.v[1]); i.set_product_version_ms(f.v[2]); i.set_product_version_ls(f.v[3]); i.set_file_subtype(f.v[8]); i.set_file_date_ms(f.v[9]); i.set_file_date_ls(f.v[10]);
    if(g.flip()) i.set_file_flags(f.v[5]); else { i.set_file_flags(f.v[5] ^ (u32)g.below(64)); bool b[6]; for(int k = 0; k < 6; ++k) b[k] = f.v[5] >> k & 1; i.set_debug(b[0]); i.set_special_build(b[5]); i.set_prerelease(b[1]); i.set_info_inferred(b[4]); i.set_patched(b[2]); i.set_private_build(b[3]); }
    i.set_file_os_raw(f.v[6]); i.set_file_type_raw(f.v[7]); int os = 0, ty = 0; for(int k = 1; k < 15; ++k) if(OS[k] == f.v[6]) os = k; for(int k = 1; k < 7; ++k) if(TYPE[k] == f.v[7]) ty = k;
    CHECK_EQ((int)i.get_file_os(), os, "version.os"); CHECK_EQ((int)i.get_file_type(), ty, "version.type"); if(os) { i.set_file_os_raw(g.u32any()); i.set_file_os((file_version_info::file_os_type)os); } if(ty) { i.set_file_type_raw(g.u32any()); i.set_file_type((file_version_info::file_type)ty); }
    return i;
}
static LMap gen_strings(Gen& g)
{
    if(g.chance(1, 150))
    {   // many strings in a table, or many tables
        g.label("hundreds of strings or tables"); LMap m; bool tables = g.flip(); size_t n = (size_t)(tables ? g.range(17, 300) : g.range(1, 2)); for(size_t i = 0; i < n; ++i) { W key = std::to_wstring(10000000 + i * 7919); SMap& s = m[key]; size_t k = (size_t)(tables ? g.below(3) : g.range(65, 500)); for(size_t j = 0; j < k; ++j) s[W(L"K") + std::to_wstring(j * 31 % 1000)] = wtext(g, 6); } return m;
    }
 auto keytext = [&](size_t n) { return wtext(g, g.chance(1, 10) ? g.chance(1, 10) ? 600 : 80 : n); }; LMap m; size_t n = (size_t)g.small(3); for(size_t i = 0; i < n; ++i) { SMap& s = m[g.chance(1, 8) ? keytext(10) : g.pick({W(L"041904b0"), W(L"040904b0"), W(L"000004E4"), W(L"040904B0")})]; size_t k = (size_t)g.small(6); for(size_t j = 0; j < k; ++j) s[g.flip() ? g.pick({W(L"CompanyName"), W(L"FileVersion"), W(L"ProductName")}) : keytext(12)] = wtext(g, g.chance(1, 10) ? 200 : 24); } return m; }
static TMap gen_trans(Gen& g) { TMap t; size_t n = crowd(g, 5, 200); for(size_t i = 0; i < n; ++i) t.insert({g.flip() ? 0x409 : g.u16any(), g.flip() ? 1200 : g.u16any()}); return t; }
static bool same_trans(const TMap& a, const TMap& b) { auto s = [](const TMap& t) { std::vector<std::pair<u16, u16>> v(t.begin(), t.end()); std::sort(v.begin(), v.end()); return v; }; return s(a) == s(b); }
static Str show(const LMap& m) { Str r; for(auto& t : m) { r += " [" + utf(t.first) + "]"; for(auto& s : t.second) { r += " " + utf(s.first) + "=" + utf(s.second); if(r.size() > 300) return r + "..."; } } return r; }
static Str show(const TMap& m) { Str r; for(auto& t : m) r += " " + hx(t.first) + ":" + hx(t.second); return r; }

static u32 size_of(const LMap& s, const TMap& tr)
{
    u32 size = 92; if(!s.empty()) { size += 36; for(auto& t : s) { size += (u32)up(8 + 2 * t.first.size(), 4); for(auto& x : t.second) size += (u32)up(8 + 2 * x.first.size(), 4) + (u32)up(2 + 2 * x.second.size(), 4); } } if(!tr.empty()) size += 64 + 4 * (u32)tr.size(); return size;
}
static void writing(Gen& g)
{
    struct V { Fix f; LMap s; TMap t; u32 cp; }; std::map<u32, V> model; resource_directory dir; pe_resource_manager v(dir); std::ostringstream o; size_t nops = 1 + (size_t)g.small(4); std::vector<u32> langs = {1033, 0, 1049};
    // other version resources stay out of the way of the one with ID 1
    if(g.chance(1, 3)) { if(g.flip()) v.add_resource(g.bytes((size_t)g.range(1, 20)), pe_resource_viewer::resource_version, W(L"OTHER"), g.pick(langs)); if(g.flip()) v.add_resource(g.bytes((size_t)g.range(1, 20)), pe_resource_viewer::resource_version, (u32)g.pick<u64>({0, 2, 3}), g.pick(langs)); if(g.flip()) v.add_resource(g.bytes((size_t)g.range(1, 20)), pe_resource_viewer::resource_manifest, 1u, g.pick(langs)); g.label("other resources"); }
    for(size_t op = 0; op < nops; ++op)
    {
        u32 lang = g.pick(langs); resource_version_info_writer w(v);
        if(g.chance(1, 5)) { bool x = w.remove_version_info(lang), e = model.erase(lang); o << " -" << lang; CHECK(x == e, "version.removed", "remove_version_info returned " << x); }
        else
        {
            V x{gen_fix(g), gen_strings(g), gen_trans(g), g.u32any()}; if(g.chance(1, 25) && !x.s.empty()) { size_t n = g.flip() ? (size_t)g.range(30000, 34000) : (size_t)g.range(60000, 70000); x.s.begin()->second[L"Comments"] = W(n, L'x'); if(g.flip()) x.s.begin()->second[L"Big"] = W((size_t)g.below(2000), L'y'); g.label("near or above 64 KB"); } if(g.chance(1, 100)) { size_t n = (size_t)g.range(16300, 16500); for(size_t i = 0; i < n; ++i) x.t.insert({(u16)i, 1200}); g.label("near or above 64 KB"); } if(g.chance(1, 25) && !x.s.empty()) { u32 now = size_of(x.s, x.t), want = 65524 + 4 * (u32)g.below(5); SMap& m = x.s.begin()->second; m.erase(L"Filler"); now = size_of(x.s, x.t); if(now + 24 < want) { m[L"Filler"] = W((want - now - 22) / 2 - (u32)g.below(2), L'f'); g.label("at the 64 KB limit"); } }
            u32 size = size_of(x.s, x.t);
            // every length is a WORD: what does not fit cannot be written
            bool fits = size <= 65535; o << " +" << lang << " size " << size << show(x.s) << " translations" << show(x.t); if(o.str().size() < 4000) g.note("history:" + o.str());
            Str was = fits ? Str() : tree_text(dir); bool thr = throws_pe([&] { w.set_version_info(info_of(g, x.f), x.s, x.t, lang, x.cp, g.u32any()); }); CHECK(thr == !fits, "version.limit", "version information of " << size << " bytes was " << (thr ? "refused" : "accepted")); if(thr) CHECK(tree_text(dir) == was, "version.refused-change", "the resources were changed although the version information was refused"); if(fits) model[lang] = x; else g.label("refused above 64 KB");
        }
    }
    if(g.flip() && !dir.get_entry_list().empty()) { bool p64 = g.flip(); Pe pe; if(p64) pe.reset(new pe_base(pe_properties_64())); else pe.reset(new pe_base(pe_properties_32())); section s; s.set_name(".rsrc"); s.set_raw_data(Str(1, 0)); section& at = pe->add_section(s); rebuild_resources(*pe, dir, at); dir = get_resources(*must_load(rebuilt(*pe), p64, "version.reload")); g.label("saved and read back"); }
    resource_version_info_reader r(v);
    for(u32 lang : langs)
    {
        LMap s; TMap t; file_version_info i; bool thr = throws_pe([&] { i = r.get_version_info_by_lang(s, t, lang); }); auto it = model.find(lang); CHECK(thr == (it == model.end()), "version.get", "version information of language " << lang << (thr ? " cannot be read" : " is still there")); if(thr) continue; V& x = it->second;
        same_fixed(i, x.f); CHECK(s == x.s, "version.strings", "strings are" << show(s) << ", expected" << show(x.s)); CHECK(same_trans(t, x.t), "version.translations", "translations are" << show(t) << ", expected" << show(x.t));
        resource_data_info d = v.get_resource_data_by_id(lang, pe_resource_viewer::resource_version, 1); CHECK_EQ(d.get_codepage(), x.cp, "version.codepage"); LMap s2; TMap t2; Str fx; strict(d.get_data(), s2, t2, fx); Fix f = x.f; f.v[4] = 0x3f; CHECK(fx == fixed_of(f), "version.written", "fixed information in the resource is " << hex(fx, 60)); CHECK(s2 == x.s, "version.written", "strings in the resource are" << show(s2) << ", expected" << show(x.s)); CHECK(same_trans(t2, x.t), "version.written", "translations in the resource are" << show(t2) << ", expected" << show(x.t));
        auto l = v.list_resource_languages(pe_resource_viewer::resource_version, 1); for(u32 k = 0; k < l.size(); ++k) if(l[k] == lang) { LMap s3; TMap t3; same_fixed(r.get_version_info(s3, t3, k), x.f); CHECK(s3 == x.s && same_trans(t3, x.t), "version.index", "version information by index " << k); } LMap s4; TMap t4; CHECK(throws_pe([&] { r.get_version_info(s4, t4, (u32)l.size()); }), "version.index", "index beyond the languages");
        g.nontrivial();
    }
    g.label("written");
}
// blocks laid out the ways other tools do
static void reading(Gen& g)
{
    LMap s = gen_strings(g); TMap t = gen_trans(g); Fix f = gen_fix(g); if(g.chance(1, 20)) { if(s.empty()) s[L"040904b0"]; s.rbegin()->second = {{W(), W()}}; } bool has_fixed = !g.chance(1, 8), tail = g.flip(), var_first = g.flip(), other = g.chance(1, 4), has_s = !s.empty(), has_t = !t.empty(); unsigned ends = g.weighted({4, 2, 2}); bool split = g.chance(1, 3); u32 rest = g.chance(1, 5) ? (u32)g.range(1, 3) : 0; size_t last = 0; bool lazy = g.flip(), hollow = g.chance(1, 8); if(hollow) g.label("blocks without children"); // lazy: no padding behind a key without a value
    auto open = [&](Str& b, const W& key, u16 type) { pad4(b); size_t at = b.size(); b += le<u16>(0) + le<u16>(0) + le<u16>(type) + u16le(key) + Str(2, 0); last = b.size(); if(!lazy) pad4(b); return at; };
    auto close = [&](Str& b, size_t at, u16 vlen) { if(tail) pad4(b); p16(b, at, (u16)(b.size() - at)); p16(b, at + 2, vlen); };
    Str b; size_t root = open(b, L"VS_VERSION_INFO", 0); if(has_fixed) { pad4(b); b += fixed_of(f); last = b.size(); }
    auto strings = [&] { if(!has_s && !hollow) return; size_t a = open(b, L"StringFileInfo", 1); for(auto& tb : s) { if(split && &tb != &*s.begin()) { close(b, a, 0); a = open(b, L"StringFileInfo", 1); } size_t q = open(b, tb.first, g.flip()); for(auto& e : tb.second) { size_t x = open(b, e.first, 1); W v = e.second; if(!(v.empty() && ends == 1)) v += W(ends == 1 ? 0 : ends == 0 ? 1 : (size_t)g.range(1, 4), L'\0'); if(!v.empty()) pad4(b); b += u16le(v); if(!v.empty()) last = b.size(); close(b, x, (u16)v.size()); } close(b, q, 0); } close(b, a, 0); };
    auto vars = [&] { if(!has_t && !hollow) return; size_t a = open(b, L"VarFileInfo", g.flip()); if(!has_t && g.flip()) { close(b, a, 0); return; } if(other) { size_t q = open(b, L"Other", 0); pad4(b); b += g.bytes(4); last = b.size(); close(b, q, 4); } size_t q = open(b, L"Translation", 0); u16 vl = 0; for(auto it = t.begin(); it != t.end(); ++it) { if(split && it != t.begin() && g.flip()) { close(b, q, vl); vl = 0; q = open(b, L"Translation", 0); } pad4(b); b += le<u16>(it->first) + le<u16>(it->second); vl = (u16)(vl + 4); last = b.size(); } if(rest && vl) { b += g.bytes(rest); vl = (u16)(vl + rest); last = b.size(); } close(b, q, vl); if(g.chance(1, 8)) { q = open(b, W(), 1); close(b, q, 0); } close(b, a, 0); };
    if(var_first) { vars(); strings(); } else { strings(); vars(); } bool unknown = g.chance(1, 24); if(unknown) { size_t a = open(b, g.pick({W(), W(L"Unknown"), W(L"StringFileInf"), W(L"VarFileInfo2")}), 1); close(b, a, 0); g.label("unknown block"); } close(b, root, has_fixed ? 52 : 0); if(b.size() > 65535) g.discard();
    std::ostringstream o; o << "block of " << b.size() << " bytes" << (has_fixed ? "" : " without fixed information") << (tail ? " padding counted" : "") << (var_first ? " translations first" : "") << (split ? " several blocks" : "") << (rest ? " incomplete last translation" : "") << " string ends " << ends << show(s) << " translations" << show(t); g.note(o.str()); g.label("read");
    auto get = [&](const Str& data, LMap& ls, TMap& lt) { resource_directory dir; pe_resource_manager v(dir); v.add_resource(data, pe_resource_viewer::resource_version, 1, 1033); return resource_version_info_reader(v).get_version_info_by_lang(ls, lt, 1033); };
    if(g.chance(1, 3) && last)
    {   // cut off: what is missing must be noticed
        size_t cut = g.flip() ? last - 1 - (size_t)g.below(std::min<size_t>(last, 8)) : (size_t)g.below(last); LMap ls; TMap lt; g.note("cut to " + std::to_string(cut) + " bytes"); CHECK(throws_pe([&] { get(b.substr(0, cut), ls, lt); }), "version.truncated", "version information cut from " << b.size() << " to " << cut << " bytes was accepted"); g.label("truncated"); g.nontrivial(); return;
    }
    if(has_fixed && g.chance(1, 6)) { size_t at = 40 + (size_t)g.below(8); Str d = b; d[at] = (char)(d[at] ^ (1 << g.below(8))); LMap ls; TMap lt; g.note("fixed information marked wrongly at byte " + std::to_string(at)); CHECK(throws_pe([&] { get(d, ls, lt); }), "version.mark", "fixed information with a wrong signature or structure version was accepted"); g.label("wrong marks"); g.nontrivial(); return; }
    if(unknown) { LMap ls; TMap lt; CHECK(throws_pe([&] { get(b, ls, lt); }), "version.unknown", "version information with a block of unknown meaning was accepted"); g.nontrivial(); return; }
    LMap ls; TMap lt; file_version_info i; try { i = get(b, ls, lt); } catch(const pe_exception& e) { fail("version.read", Str("valid version information was refused: ") + e.what()); }
    if(has_fixed) same_fixed(i, f); else { Fix z; memset(&z, 0, sizeof z); same_fixed(i, z); } CHECK(ls == s, "version.strings", "strings are" << show(ls) << ", expected" << show(s)); CHECK(same_trans(lt, t), "version.translations", "translations are" << show(lt) << ", expected" << show(t)); if(has_s || has_t) g.nontrivial();
}
static W lower(W w) { for(wchar_t& c : w) if(c >= L'A' && c <= L'Z') c += 32; return w; }
static void editing(Gen& g)
{
    LMap s; TMap t; std::vector<W> pool = {L"041904b0", L"040904b0", L"000004e4", L"040904B0", L"041904B0", L"ffffffff", L"00000000"}; { LMap x = g.flip() ? gen_strings(g) : LMap(); for(auto& e : x) { bool dup = e.first.empty(); for(auto& y : s) if(lower(y.first) == lower(e.first)) dup = true; if(!dup) s.insert(e); } if(g.flip()) t = gen_trans(g); if(!s.empty() && g.chance(1, 2)) pool.push_back(s.begin()->first); }
    LMap ms = s; std::vector<std::pair<u16, u16>> mt(t.begin(), t.end()); version_info_editor e(s, t); std::ostringstream o; o << show(s); size_t nops = 1 + (size_t)g.small(12);
    auto find = [&](const W& k) { auto it = ms.begin(); for(; it != ms.end(); ++it) if(lower(it->first) == lower(k)) break; return it; };
    auto pair_of = [&](const W& k) { u32 v = 0; bool hex_ok = k.size() == 8; for(wchar_t c : lower(k)) { if(!((c >= L'0' && c <= L'9') || (c >= L'a' && c <= L'f'))) hex_ok = false; else v = v * 16 + (u32)(c <= L'9' ? c - L'0' : c - L'a' + 10); } if(!hex_ok) g.discard(); return std::make_pair((u16)(v >> 16), (u16)v); };
    auto add = [&](std::pair<u16, u16> p) { if(std::find(mt.begin(), mt.end(), p) == mt.end()) mt.push_back(p); };
    auto target = [&](const W& tr) { W k = tr.empty() ? W(L"041904b0") : tr; auto it = find(k); if(it == ms.end() && tr.empty() && !ms.empty()) it = ms.begin(); return it; };
    typedef void (version_info_editor::*Set)(const W&, const W&); typedef const W (version_info_viewer::*Get)(const W&) const; struct Prop { const wchar_t* n; Set set; Get get; };
    static const Prop P[] = {{L"CompanyName", &version_info_editor::set_company_name, &version_info_viewer::get_company_name}, {L"FileDescription", &version_info_editor::set_file_description, &version_info_viewer::get_file_description}, {L"FileVersion", &version_info_editor::set_file_version, &version_info_viewer::get_file_version}, {L"InternalName", &version_info_editor::set_internal_name, &version_info_viewer::get_internal_name}, {L"LegalCopyright", &version_info_editor::set_legal_copyright, &version_info_viewer::get_legal_copyright}, {L"OriginalFilename", &version_info_editor::set_original_filename, &version_info_viewer::get_original_filename}, {L"ProductName", &version_info_editor::set_product_name, &version_info_viewer::get_product_name}, {L"ProductVersion", &version_info_editor::set_product_version, &version_info_viewer::get_product_version}};
    for(size_t op = 0; op < nops; ++op)
    {
        W tr = g.chance(1, 3) ? W() : g.pick(pool);
        switch(g.weighted({5, 3, 2}))
        {
        case 0:
        {
            int p = g.flip() ? (int)g.below(8) : -1; W name = p >= 0 ? W(P[p].n) : wtext(g, 6), val = wtext(g, 8); o << " set [" << utf(tr) << "] " << utf(name) << "=" << utf(val); g.note("history:" + o.str()); auto it = target(tr); W made; if(it == ms.end()) { made = tr.empty() ? W(L"041904b0") : tr; add(pair_of(made)); it = ms.insert({made, SMap()}).first; } it->second[name] = val;
            if(p >= 0) (e.*P[p].set)(val, tr); else e.set_property(name, val, tr); break;
        }
        case 1: { W k = g.pick(pool); auto p = pair_of(k); o << " add " << utf(k); g.note("history:" + o.str()); add(p); if(g.flip()) e.add_translation(k); else e.add_translation(p.first, p.second); break; }
        default: { W k = g.pick(pool); auto p = pair_of(k); o << " remove " << utf(k); g.note("history:" + o.str()); auto it = find(k); if(it != ms.end()) ms.erase(it); auto jt = std::find(mt.begin(), mt.end(), p); if(jt != mt.end()) mt.erase(jt); if(g.flip()) e.remove_translation(k); else e.remove_translation(p.first, p.second); break; }
        }
        CHECK(s == ms, "editor.strings", "strings are" << show(s) << ", expected" << show(ms)); std::vector<std::pair<u16, u16>> a(t.begin(), t.end()), b = mt; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "editor.translations", "translations are" << show(t) << ", expected " << b.size() << " of them");
        auto l = e.get_translation_list(); std::vector<std::pair<u16, u16>> c; for(auto& x : l) { c.push_back(pair_of(x)); CHECK(version_info_viewer::translation_from_string(x) == c.back(), "editor.list", "translation string " << utf(x)); } std::sort(c.begin(), c.end()); CHECK(c == b, "editor.list", "list of translations has " << l.size() << " entries");
        std::vector<W> q = pool; q.push_back(W()); q.insert(q.end(), l.begin(), l.end());
        for(const W& k : q)
        {
            auto it = target(k); version_info_viewer vw(s, t);
            for(auto& p : P) { W want; bool has = it != ms.end() && it->second.count(p.n); if(has) want = it->second[p.n]; W got = (g.flip() ? (vw.*p.get)(k) : (e.*p.get)(k)); CHECK(got == want, "editor.get", utf(p.n) << " of [" << utf(k) << "] is '" << utf(got) << "', expected '" << utf(want) << "'"); bool thr = throws_pe([&] { got = vw.get_property(p.n, k, true); }); CHECK(thr == !has && (thr || got == want), "editor.throw", utf(p.n) << " of [" << utf(k) << "]"); }
        }
    }
    g.label("edited"); g.nontrivial();
}
static void run(Gen& g) { switch(g.weighted({4, 3, 3})) { case 0: writing(g); break; case 1: reading(g); break; default: editing(g); } }
const pbt::PropInfo pbt::prop_info = {"C18", "(1) Histories of version information (any fixed fields, string tables in several languages, translations, sizes up to and beyond 64 KB) set, replaced and removed; the resource is decoded by a strict reference reader and by the library, also after saving. (2) Blocks laid out as other tools do, whole and cut off, read by the library. (3) Histories of the editor against a map with case-insensitive translations. Non-trivial: something was written and read, read, or edited.", run, 24000, 1500000, 0, 0, 20};
