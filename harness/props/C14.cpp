// C14: resource trees of any shape are read exactly and rebuilt into a directory which decodes to the same sorted tree.
#include "gen_pe.h"
using namespace ref;
typedef std::vector<u16> W;
struct N;
struct E { bool named = false, leaf = false; W name; u32 id = 0, cp = 0; Str data; std::shared_ptr<N> dir; };
struct N { u32 chars = 0, ts = 0; u16 maj = 0, min = 0; std::vector<E> e; };
typedef std::shared_ptr<N> Tree;

static std::wstring ws(const W& w) { return std::wstring(w.begin(), w.end()); }
static W gen_name(Gen& g)
{
    W r; size_t n = g.chance(1, 60) ? (size_t)g.range(100, 1500) : (size_t)g.small(12); if(g.chance(9, 10) && !n) n = 1;
    bool wide = g.chance(1, 3); for(size_t i = 0; i < n; ++i) { u32 c = wide ? (u32)g.edge(1, 0xffff) : (u32)('A' + g.below(40)); if(c >= 0xd800 && c < 0xe000) c = 0x430; r.push_back((u16)c); } if(g.chance(1, 4)) { W pre(g.pick({7, 8, 15, 16, 31, 40}), (u16)'K'); r.insert(r.begin(), pre.begin(), pre.end()); } return r;
}
static bool key_less(const E& a, const E& b) { if(a.named != b.named) return a.named; return a.named ? a.name < b.name : a.id < b.id; }
static bool key_eq(const E& a, const E& b) { return a.named == b.named && (a.named ? a.name == b.name : a.id == b.id); }
static Tree gen_tree(Gen& g, int depth, size_t& budget)
{
    Tree t = std::make_shared<N>(); if(g.chance(1, 2)) { t->chars = g.u32any(); t->ts = g.u32any(); t->maj = g.u16any(); t->min = g.u16any(); }
    size_t n = (size_t)(g.chance(1, 30) ? g.range(6, 40) : g.small(5)); bool wide = depth < 3 && budget > 20 && g.chance(1, 60); if(wide) { g.label("hundreds of entries"); n = (size_t)(g.chance(1, 40) ? g.range(1025, 5000) : g.range(150, 600)); } if(depth == 0 && !n) n = 1;
    for(size_t i = 0; i < n && budget; ++i)
    {
        if(wide) { E x; x.id = (u32)(0x100 + i * 3); x.leaf = true; x.data = Str(i % 5, (char)i); bool dup = false; for(E& y : t->e) if(key_eq(y, x)) dup = true; if(!dup) t->e.push_back(x); if(i % 32) continue; }
        --budget; E e; e.named = g.chance(2, 5); if(e.named) e.name = gen_name(g); else e.id = g.flip() ? (u32)g.below(30) : g.u16any();
        bool dup = false; for(E& x : t->e) if(key_eq(x, e)) dup = true; if(dup) continue;
        e.leaf = depth >= 5 || g.chance(depth == 0 ? 1 : depth == 1 ? 2 : 5, 6);
        if(e.leaf) { e.cp = g.chance(1, 2) ? 0 : g.u32any(); e.data = g.bytes((size_t)(g.chance(1, 30) ? g.chance(1, 40) ? g.range(0xfff0, 0x20000) : g.range(100, 1200) : g.small(24))); } else e.dir = gen_tree(g, depth + 1, budget);
        t->e.push_back(e);
    }
    return t;
}
static size_t count(const Tree& t) { size_t n = 0; for(E& e : t->e) n += 1 + (e.leaf ? 0 : count(e.dir)); return n; }
static void draw(const Tree& t, std::ostream& o) { o << "{"; for(E& e : t->e) { if(e.named) o << "'" << Str(e.name.begin(), e.name.begin() + std::min<size_t>(e.name.size(), 6)) << "'"; else o << e.id; if(e.leaf) o << ":" << e.data.size() << "b"; else draw(e.dir, o); o << " "; } o << "}"; }
static void same(const resource_directory& d, const N& t, const char* sig)
{
    CHECK_EQ(d.get_characteristics(), t.chars, sig); CHECK_EQ(d.get_timestamp(), t.ts, sig); CHECK_EQ(d.get_major_version(), t.maj, sig); CHECK_EQ(d.get_minor_version(), t.min, sig);
    const auto& l = d.get_entry_list(); CHECK(l.size() == t.e.size(), sig, "directory has " << l.size() << " entries, expected " << t.e.size()); u32 nn = 0;
    for(size_t i = 0; i < l.size(); ++i)
    {
        const E& e = t.e[i]; nn += e.named; CHECK(l[i].is_named() == e.named, sig, "entry " << i << " named"); if(e.named) CHECK(l[i].get_name() == ws(e.name), sig, "name of entry " << i << " has " << l[i].get_name().size() << " characters or differs"); else CHECK_EQ(l[i].get_id(), e.id, sig);
        CHECK(l[i].includes_data() == e.leaf, sig, "entry " << i << (e.leaf ? " is not data" : " is not a directory"));
        if(e.leaf) { CHECK_EQ(l[i].get_data_entry().get_codepage(), e.cp, sig); CHECK(l[i].get_data_entry().get_data() == e.data, sig, "data of entry " << i << ": " << l[i].get_data_entry().get_data().size() << " bytes, expected " << e.data.size() << " bytes " << hex(e.data, 16)); resource_directory_entry z(l[i]); CHECK(throws_pe([&] { l[i].get_resource_directory(); }) && throws_pe([&] { z.get_resource_directory(); }), sig, "data entry gives a directory"); CHECK(z.get_data_entry().get_data() == e.data, sig, "copied entry " << i); }
        else { same(l[i].get_resource_directory(), *e.dir, sig); resource_directory_entry z(l[i]); CHECK(throws_pe([&] { l[i].get_data_entry(); }) && throws_pe([&] { z.get_data_entry(); }), sig, "directory entry gives data"); CHECK_EQ(z.get_resource_directory().get_entry_list().size(), e.dir->e.size(), sig); }
    }
    CHECK_EQ(d.get_number_of_named_entries(), nn, sig); CHECK_EQ(d.get_number_of_id_entries(), (u32)t.e.size() - nn, sig);
    for(const E& e : t.e)
    {   // lookups find the (unique) entry and refuse what is not there
        const resource_directory_entry* p = nullptr; try { p = e.named ? &d.entry_by_name(ws(e.name)) : &d.entry_by_id(e.id); } catch(const pe_exception&) { } size_t at = (size_t)(&e - &t.e[0]);
        CHECK(p == &l[at], sig, "lookup of entry " << at << " found another one");
    }
    CHECK(throws_pe([&] { d.entry_by_id(0x12345); }) && throws_pe([&] { d.entry_by_name(L"no such name"); }), sig, "lookup of an absent entry");
}
struct Writer
{
    Gen& g; Placer& p; u32 root; std::vector<std::pair<W, u32>> strs; std::vector<u32> dirs; Str why; long fault; bool many; // fault: index of the structure to break, -1 none
    u32 place(const Str& b, u64 al) { u32 a = p.place(b, al, sec()); if(a < root) g.discard(); return a; }
    int sec() const { return p.headers && root < p.m.size_headers ? -1 : -2; }            // a part can only lie behind the root
    bool hit() { return fault >= 0 && fault-- == 0; }
    u32 dir(const N& t, u32 at)
    {
        dirs.push_back(at); u16 nn = 0; for(const E& e : t.e) nn += e.named; u16 total = (u16)t.e.size(); if(g.chance(1, 10)) nn = (u16)g.below(total + 1);
        Str b = le<u32>(t.chars) + le<u32>(t.ts) + le<u16>(t.maj) + le<u16>(t.min) + le<u16>(nn) + le<u16>((u16)(total - nn));
        for(const E& e : t.e)
        {
            if(e.named) { u32 a = 0; for(auto& s : strs) if(s.first == e.name && g.flip()) a = s.second; if(!a) { Str s = le<u16>((u16)e.name.size()); for(u16 c : e.name) s += le<u16>(c); if(e.name.empty()) s += Str(2, 0); a = place(s, g.flip() ? 2 : 1); strs.push_back({e.name, a}); } u32 off = a - root; if(hit()) { if(g.flip() || p.end_at(a) - a > 0x1fff0) off = beyond(2, "name outside the image"); else { u64 left = p.end_at(a) - a - 2; p.put(a, le<u16>((u16)std::min<u64>(65535, left / 2 + 1 + g.below(left)))); why = "name beyond its section"; } } b += le<u32>(off | 0x80000000); }
            else { u32 id = e.id; b += le<u32>(id); }
            if(e.leaf)
            {
                u32 a = p.place(e.data.empty() ? Str(1, 0) : e.data, g.flip() ? 4 : 1), sz = (u32)e.data.size(); if(!e.data.empty() && hit()) { if(g.flip()) { u64 end = p.end_at(a); sz = (u32)(end - a + 1 + g.below(1000)); why = "data beyond its section"; } else { a = p.m.size_image + (u32)g.below(0x10000); why = "data outside the image"; } }
                u32 d = place(le<u32>(a) + le<u32>(sz) + le<u32>(e.cp) + le<u32>(g.u32any()), g.flip() ? 4 : 1); b += le<u32>(d - root);
            }
            else if(many || hit()) { if(!many && g.chance(1, 3)) many = true; if(many || g.flip()) { b += le<u32>((dirs[(size_t)g.below(dirs.size())] - root) | 0x80000000); why = "loop"; } else b += le<u32>(beyond(16, "directory outside the image") | 0x80000000); }
            else { u32 a = p.alloc(16 + 8 * e.dir->e.size(), g.flip() ? 4 : 1, sec()); if(a < root) g.discard(); b += le<u32>((a - root) | 0x80000000); dir(*e.dir, a); dirs.pop_back(); }
        }
        p.put(at, b); return at;
    }
    u32 beyond(u32 n, const char* w) { why = w; u64 end = p.m.size_image - root; u64 off = end - g.below(n) + (g.flip() ? g.below(0x10000) : 0); return (u32)std::min<u64>(off, 0x7fffffff); }
};
static Tree gen_root(Gen& g)
{
    size_t budget = (size_t)g.pick({4, 12, 40}); Tree t = gen_tree(g, 0, budget); if(!g.chance(1, 40)) return t;
    int n = (int)g.range(1, 50); for(int i = 0; i < n; ++i) { Tree u = std::make_shared<N>(); E e; e.id = (u32)g.below(9); e.dir = t; u->e.push_back(e); if(g.chance(1, 6)) { E x; x.leaf = true; x.id = 10; x.data = g.bytes(3); u->e.push_back(x); } t = u; } g.label("deep tree"); return t;
}
static void read_part(Gen& g)
{
    Img m = host_img(g, (unsigned)g.range(1, 2), g.chance(1, 60) ? 64 : 4, -1, true, 0x80000000ull); Placer p(g, m, true, true); for(int i = 1; i < 30; ++i) m.dos[i] = g.u16any(); Tree t = gen_root(g); bool low = p.headers && g.flip() && p.hfree.first + 80 + 8 * t->e.size() <= p.hfree.second; auto& area = low ? p.hfree : p.free_[0]; u32 root = (u32)area.first + (u32)(g.flip() ? 0 : g.below(64)); area.first = root + 16 + 8 * t->e.size(); bool has = !g.chance(1, 30);
    Writer w{g, p, root, {}, {}, "", g.chance(1, 8) ? (long)g.below(6) : -1, false}; w.dir(*t, root); if(has) m.dirs[2] = {root, (u32)g.below(0x10000)}; if(w.why.empty() && g.flip()) p.trim();
    std::ostringstream o; o << "read: " << describe(m) << " root " << hx(root) << " "; draw(t, o); o << " " << w.why; g.note(o.str());
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0); Pe pe = must_load(f, m.p64, "res.load"); CHECK(pe->has_resources() == has, "res.has", "has_resources()");
    resource_directory d; bool thr = false; Str msg; try { d = get_resources(*pe); } catch(const pe_exception& e) { thr = true; msg = e.what(); }
    if(!has) { CHECK(!thr && d.get_entry_list().empty(), "res.none", "resources without a directory"); return; }
    CHECK(thr == !w.why.empty(), "res.accept", (thr ? "a valid resource tree was refused: " + msg : "accepted a tree with " + w.why)); g.nontrivial(); if(thr) { g.label("refused: " + w.why); return; }
    same(d, *t, "res.read");
}
static void sort_tree(N& t) { std::sort(t.e.begin(), t.e.end(), key_less); for(E& e : t.e) if(!e.leaf) sort_tree(*e.dir); }
static resource_directory build(Gen& g, const N& t)
{
    pe_win::image_resource_directory h; memset(&h, 0, sizeof(h)); h.Characteristics = t.chars; h.TimeDateStamp = t.ts; h.MajorVersion = t.maj; h.MinorVersion = t.min; h.NumberOfIdEntries = 7; resource_directory d(h);
    if(g.flip()) { d = resource_directory(); d.set_characteristics(t.chars); d.set_timestamp(t.ts); d.set_major_version(t.maj); d.get_minor_version(t.min); if(g.flip()) { d.set_number_of_id_entries(99); d.set_number_of_named_entries(77); CHECK_EQ(d.get_number_of_id_entries(), 99u, "res.counts"); CHECK_EQ(d.get_number_of_named_entries(), 77u, "res.counts"); d.clear_resource_directory_entry_list(); } }
    for(const E& e : t.e)
    {
        resource_directory_entry x; const resource_directory_entry& cx = x; if(g.chance(1, 10)) CHECK(throws_pe([&] { x.get_data_entry(); }) && throws_pe([&] { x.get_resource_directory(); }) && throws_pe([&] { cx.get_data_entry(); }) && throws_pe([&] { cx.get_resource_directory(); }), "res.empty-entry", "an entry given nothing includes something"); if(e.named) { if(g.chance(1, 6)) x.set_id(5); x.set_name(ws(e.name)); } else { if(g.chance(1, 6)) x.set_name(L"old"); x.set_id(e.id); }
        if(e.leaf) { if(g.chance(1, 8)) x.add_resource_directory(resource_directory()); resource_data_entry de(e.data, e.cp); if(g.flip()) { de = resource_data_entry(); de.set_codepage(e.cp); de.set_data(e.data); } x.add_data_entry(de); if(g.chance(1, 8)) { x.add_data_entry(x.get_data_entry()); g.label("entry given its own data"); } }
        else { if(g.chance(1, 8)) x.add_data_entry(resource_data_entry("zz", 1)); x.add_resource_directory(build(g, *e.dir)); if(g.chance(1, 8)) { x.add_resource_directory(x.get_resource_directory()); g.label("entry given its own directory"); } }
        if(g.chance(1, 10)) { resource_directory_entry y(x), z; z = y; x = z; } if(g.chance(1, 10)) { resource_directory_entry& y = x; x = y; g.label("self-assignment"); }
        if(g.chance(1, 20)) { resource_directory_entry y; y.set_id(1); resource_directory in; in.add_resource_directory_entry(x); y.add_resource_directory(in); y = y.get_resource_directory().get_entry_list()[0]; x = y; g.label("entry replaced by its descendant"); }
        d.add_resource_directory_entry(x);
    }
    return d;
}
struct Reader
{
    Mem q; u32 root, end, struct_end; Reader(const Img& r, u32 a, u32 e) : q(r), root(a), end(e), struct_end(a) { }
    void in(u32 a, u64 n, const char* what) { CHECK(a >= root && a + n <= end, "resreb.outside", what << " at " << hx(a) << "+" << n << " lies outside the directory " << hx(root) << ".." << hx(end)); }
    Tree dir(u32 at, int depth)
    {
        CHECK(depth < 80 && at % 4 == 0, "resreb.decode", "directory at " << hx(at)); in(at, 16, "directory"); Tree t = std::make_shared<N>(); t->chars = q.r32(at); t->ts = q.r32(at + 4); t->maj = q.r16(at + 8); t->min = q.r16(at + 10); u32 nn = q.r16(at + 12), n = nn + q.r16(at + 14);
        for(u32 i = 0; i < n; ++i)
        {
            u32 a = at + 16 + 8 * i; in(a, 8, "entry"); E e; u32 x = q.r32(a), y = q.r32(a + 4); e.named = x >> 31; CHECK(e.named == (i < nn), "resreb.order", "named entries do not come first");
            if(e.named) { u32 s = root + (x & 0x7fffffff); u16 len = q.r16(s); in(s, 2 + 2 * len, "name"); for(u16 k = 0; k < len; ++k) e.name.push_back(q.r16(s + 2 + 2 * k)); } else e.id = x;
            e.leaf = !(y >> 31); u32 b = root + (y & 0x7fffffff);
            if(e.leaf) { in(b, 16, "data entry"); CHECK(b % 4 == 0, "resreb.align", "data entry at " << hx(b)); u32 r = q.r32(b), sz = q.r32(b + 4); e.cp = q.r32(b + 8); in(r, sz, "data"); e.data = q.blob(r, sz); } else e.dir = dir(b, depth + 1);
            if(!t->e.empty()) CHECK(!key_less(e, t->e.back()), "resreb.order", "entries are not sorted"); t->e.push_back(e);
        }
        return t;
    }
};
static void cmp(const N& a, const N& b, const Str& path)
{
    CHECK(a.chars == b.chars && a.ts == b.ts && a.maj == b.maj && a.min == b.min, "resreb.tree", "header of directory " << path); CHECK(a.e.size() == b.e.size(), "resreb.tree", "directory " << path << " has " << a.e.size() << " entries, expected " << b.e.size());
    for(size_t i = 0; i < a.e.size(); ++i)
    {
        const E &x = a.e[i], &y = b.e[i]; Str p = path + "/" + std::to_string(i); CHECK(key_eq(x, y) && x.leaf == y.leaf, "resreb.tree", "entry " << p << " has another key or kind");
        if(x.leaf) CHECK(x.cp == y.cp && x.data == y.data, "resreb.tree", "data of entry " << p << ": " << hex(x.data, 24) << ", expected " << hex(y.data, 24)); else cmp(*x.dir, *y.dir, p);
    }
}
static void extent(const N& t, u64& st, u64& str, u64& dat) { st += 16 + 8 * t.e.size(); for(const E& e : t.e) { if(e.named) str += 4 + 2 * e.name.size(); if(e.leaf) dat = up(dat, 4) + 16 + e.data.size(); else extent(*e.dir, st, str, dat); } }
static u64 data_end(const N& t, u64 pos) { for(const E& e : t.e) if(e.leaf) pos = up(pos, 4) + 16 + e.data.size(); else pos = data_end(*e.dir, pos); return pos; }
static void rebuild_part(Gen& g)
{
    unsigned ns = (unsigned)g.range(1, 3); Img m = host_img(g, ns, 2, -1, true, addressable); Placer p(g, m); Pe pe = must_load(write(m), m.p64, "resreb.load"); Tree t = gen_root(g); if(g.chance(1, 40)) t->e.clear(); resource_directory d = build(g, *t); same(d, *t, "resreb.api");
    u32 off = any_offset(g); bool save = g.chance(3, 4), strip = g.flip(); int mode = (int)g.weighted({3, 4, 1}); size_t idx = (size_t)g.below(ns); section loose;
    if(mode == 0) { section a; a.set_name(".rsrc"); a.set_raw_data(g.bytes((size_t)g.range(1, 0x600))); pe->add_section(a); idx = pe->get_image_sections().size() - 1; }
    section* s = &pe->get_image_sections()[idx]; if(mode == 2) { loose.set_raw_data(Str(0x10000, 0)); loose.set_virtual_address(0x1000); s = &loose; } bool last = idx + 1 == pe->get_image_sections().size();
    sort_tree(*t); u64 st = 0, str = 0, x = 0; extent(*t, st, str, x); u64 room = mode == 2 ? 0 : up(s->get_size_of_raw_data(), m.falign); if(mode != 2) off = fit_offset(g, off, room, data_end(*t, st + str), last); u64 base = up(off, 4), lo = data_end(*t, base + st + str), hi = lo + 64; { size_t leaves = count(t); hi += 4 * leaves; }
    std::vector<Str> before; for(auto& q : pe->get_image_sections()) before.push_back(q.get_raw_data());
    std::ostringstream o; o << "rebuild: " << describe(m) << " -> section " << idx << (last ? " (last)" : "") << " offset " << hx(off) << " save=" << save << " strip=" << strip << " "; draw(t, o); g.note(o.str());
    Str intact = whole(*pe); image_directory ret; bool thr = false; Str msg; try { ret = rebuild_resources(*pe, d, *s, off, save, strip); } catch(const pe_exception& e) { thr = true; msg = e.what(); } if(thr) CHECK(whole(*pe) == intact, "resreb.refused-change", "the image was changed although the request was refused: " << msg);
    if(mode == 2) { CHECK(thr, "resreb.unattached", "resources rebuilt into a section which is not part of the image"); g.nontrivial(); g.label("unattached section"); return; }
    if(t->e.empty()) { CHECK(thr, "resreb.empty", "an empty tree was rebuilt"); return; }
    if(thr) { CHECK(!last && room < lo + 8, "resreb.refused", "refused although " << room << " bytes are there and at most " << hi << " are needed: " << msg); g.label("no room"); g.nontrivial(); return; }
    CHECK(last || room >= lo, "resreb.room", "at least " << lo << " bytes accepted in a section of " << room << " bytes");
    for(size_t i = 0; i < before.size(); ++i)
    {
        const Str& now = pe->get_image_sections()[i].get_raw_data();
        for(size_t b = 0; b < std::max(before[i].size(), now.size()); ++b) { char u = b < before[i].size() ? before[i][b] : 0, v = b < now.size() ? now[b] : 0; if(u != v) CHECK(i == idx && b >= base && b < hi, "resreb.clobber", "byte " << hx(b) << " of section " << i << " changed; the directory was to be built at " << hx(off) << ".." << hx(lo) << " of section " << idx); }
    }
    CHECK_EQ(pe->get_directory_rva(2), save ? ret.get_rva() : 0, "resreb.header"); CHECK_EQ(pe->get_directory_size(2), save ? ret.get_size() : 0, "resreb.header"); CHECK_EQ(ret.get_rva(), (u32)(pe->get_image_sections()[idx].get_virtual_address() + base), "resreb.rva");
    CHECK((u64)ret.get_size() + base >= lo && ret.get_size() + base <= hi, "resreb.size", "directory size " << ret.get_size() << ", contents need " << lo - base);
    same(d, *t, "resreb.sorted"); pe->set_directory_rva(2, ret.get_rva()); pe->set_directory_size(2, ret.get_size());
    Str out = rebuilt(*pe); Img r; Str why; CHECK(parse(out, r, why) && well_formed(r, out.size(), why), "resreb.file", why); g.nontrivial();
    try { Reader q(r, ret.get_rva(), ret.get_rva() + ret.get_size()); cmp(*q.dir(ret.get_rva(), 0), *t, ""); } catch(const OutOfRange&) { fail("resreb.decode", "the rebuilt directory runs out of the image"); }
    try { same(get_resources(*must_load(out, m.p64, "resreb.reload")), *t, "resreb.reread"); } catch(const pe_exception& e) { fail("resreb.reread", std::string("the rebuilt directory cannot be read back: ") + e.what()); }
}
// Lengths of names and numbers of entries are 16-bit fields: what does not fit is refused, and everything else is written
static void limits(Gen& g)
{
    Img m = host_img(g, 1, 1, -1, false); Pe pe = must_load(write(m), m.p64, "limits.load"); section& s = pe->get_image_sections().back(); Str before = s.get_raw_data(); unsigned kind = g.weighted({2, 1, 1}); size_t n = (size_t)(g.flip() ? g.range(65533, 65539) : g.range(32766, 140000)), low = (size_t)g.below(3); resource_directory root, d;
    auto leaf = [&](resource_directory& to, bool named, u32 id, const std::wstring& name) { resource_directory_entry e; if(named) e.set_name(name); else e.set_id(id); e.add_data_entry(resource_data_entry("x", 0)); to.add_resource_directory_entry(e); };
    std::wstring name(n, L'N'); for(size_t i = 0; i < n; ++i) name[i] = (wchar_t)(L'A' + i % 23); bool id_names = kind == 1;
    if(kind == 0) { leaf(d, true, 0, name); leaf(d, false, 7, L""); } else { n = (size_t)g.range(65535, 65538); for(size_t i = 0; i < n; ++i) if(id_names) leaf(d, true, 0, std::to_wstring(i)); else leaf(d, false, (u32)(i & 0xffff), L""); for(size_t i = 0; i < low; ++i) if(id_names) leaf(d, false, (u32)i, L""); else leaf(d, true, 0, std::to_wstring(i)); }
    bool nested = kind == 0 && g.flip(); if(nested) { resource_directory_entry e; e.set_id(3); e.add_resource_directory(d); root.add_resource_directory_entry(e); } else root = d;
    g.note(Str(kind == 0 ? "a name of " : id_names ? "named entries: " : "numbered entries: ") + std::to_string(n)); g.nontrivial(); g.label(n > 65535 ? "more than 16 bits can count" : "as much as 16 bits can count"); image_directory ret; bool thr = throws_pe([&] { ret = rebuild_resources(*pe, root, s, 0, true, false); });
    CHECK(thr == (n > 65535), "limits.refusal", (thr ? "refused " : "wrote ") << (kind == 0 ? "a name of " : "a directory of ") << n << (kind == 0 ? " characters" : " entries")); if(thr) { CHECK(s.get_raw_data() == before, "limits.refusal", "the section was changed although the resources were refused"); return; }
    resource_directory q = get_resources(*pe); if(nested) { resource_directory in = q.get_entry_list().at(0).get_resource_directory(); q = in; } const resource_directory::entry_list& l = q.get_entry_list(); CHECK_EQ(l.size(), kind == 0 ? (size_t)2 : n + low, "limits.entries"); CHECK_EQ((size_t)q.get_number_of_named_entries(), kind == 0 ? (size_t)1 : id_names ? n : low, "limits.named"); if(kind == 0) CHECK(l[0].is_named() && l[0].get_name() == name, "limits.name", "a name of " << n << " characters came back as one of " << l[0].get_name().size());
}
static void run(Gen& g) { if(g.chance(1, 5000)) limits(g); else if(g.flip()) read_part(g); else rebuild_part(g); }
const pbt::PropInfo pbt::prop_info = {"C14", "Resource trees up to 6 levels deep (and, now and then, 50), names and directories around the 65535 the format can count, named and numbered entries, shared name strings, empty directories and data, laid out by the reference writer and read, or built through the API (with copies, self-assignment and replacement) and rebuilt, then decoded by a reference reader. Non-trivial: a tree was read or rebuilt, or a fault (loop, structure outside the image, no room, unattached section) had to be refused.", run, 60000, 3000000, 0, 0, 20};
