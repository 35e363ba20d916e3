// C22: bound imports are read exactly and rebuilt so that an independent reader finds the same.
#include "gen_pe.h"
using namespace ref;
struct Ref { Str name; u32 ts; }; struct Mod { Str name; u32 ts; std::vector<Ref> refs; };
static bool same(const std::vector<Mod>& a, const std::vector<Mod>& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); ++i) { if(a[i].name != b[i].name || a[i].ts != b[i].ts || a[i].refs.size() != b[i].refs.size()) return false; for(size_t k = 0; k < a[i].refs.size(); ++k) if(a[i].refs[k].name != b[i].refs[k].name || a[i].refs[k].ts != b[i].refs[k].ts) return false; } return true; }
static std::vector<Mod> of(const bound_import_module_list& l) { std::vector<Mod> r; for(auto& x : l) { Mod m{x.get_module_name(), x.get_timestamp(), {}}; CHECK_EQ(x.get_module_ref_count(), x.get_module_ref_list().size(), "bound.count"); for(auto& y : x.get_module_ref_list()) m.refs.push_back({y.get_module_name(), y.get_timestamp()}); r.push_back(m); } return r; }
static Str show(const std::vector<Mod>& v) { std::ostringstream o; for(auto& m : v) { o << " " << m.name.substr(0, 40) << "(" << hx(m.ts) << ")"; for(auto& r : m.refs) o << "+" << r.name.substr(0, 40) << "(" << hx(r.ts) << ")"; } return o.str().substr(0, 1500); }
static std::vector<Mod> gen_mods(Gen& g, size_t max)
{
    std::vector<Mod> v((size_t)g.small(max)); auto nm = [&] { return g.chance(1, 20) ? Str() : sym_name(g, 20); };
    for(Mod& m : v) { m.name = nm(); m.ts = g.u32any(); for(size_t n = g.flip() ? (size_t)g.small(5) : 0; n; --n) m.refs.push_back({nm(), g.u32any()}); } if(!v.empty() && g.chance(1, 40)) { Mod& m = v[(size_t)g.below(v.size())]; for(size_t n = (size_t)g.range(240, 800); n; --n) m.refs.push_back({Str(1 + n % 3, (char)('a' + n % 26)), (u32)n}); g.label("hundreds of references"); } return v;
}
static void read_part(Gen& g)
{
    Img m = host_img(g, (unsigned)g.range(1, 2), 2, -1, false, 0xfffff000ull); Placer p(g, m); std::vector<Mod> v = gen_mods(g, 6); for(Mod& x : v) for(Ref& r : x.refs) (void)r; Str why;
    // layout: descriptors, then names in any order with gaps and sharing
    u32 n = 8; for(Mod& x : v) n += 8 + 8 * (u32)x.refs.size(); Str d(n, 0), names; std::map<Str, u32> pool; u32 gap = g.chance(1, 3) ? (u32)g.below(40) : 0; names = Str(gap, 'g');
    bool clean = false; auto name = [&](const Str& s) { if(g.flip() && pool.count(s)) return pool[s]; u32 o = n + (u32)names.size(); names += s + Str(1, 0); clean = !s.empty(); if(g.chance(1, 6)) { names += g.bytes((size_t)g.below(9)); clean = false; } pool[s] = o; return o; };
    std::vector<std::pair<u32, Str*>> todo; u32 o = 0; std::vector<u32> nameslots;
    for(Mod& x : v) { p32(d, o, x.ts); p16(d, o + 6, (u16)x.refs.size()); todo.push_back({o + 4, &x.name}); o += 8; for(Ref& r : x.refs) { p32(d, o, r.ts); p16(d, o + 6, g.flip() ? 0 : g.u16any()); todo.push_back({o + 4, &r.name}); o += 8; } }
    for(size_t i = todo.size(); i > 1 && gap; --i) std::swap(todo[i - 1], todo[(size_t)g.below(i)]); for(auto& t : todo) { u32 a = name(*t.second); if(a > 0xffff) g.discard(); p16(d, t.first, (u16)a); }
    if(g.flip()) { p32(d, o, g.u32any()); p16(d, o + 6, g.u16any()); }                    // only the name offset ends the list
    bool inside = !v.empty() && g.chance(1, 10); for(Mod& x : v) if(x.refs.size() > 255) inside = false;
    if(inside)
    {   // the name is the reference count of its own descriptor or the time stamp of a later one: the null descriptor ends the data
        names.clear(); o = 0; for(auto& x : v) { u32 at = o + 6; x.name = Str(x.refs.size() ? 1 : 0, (char)x.refs.size()); if(o && g.flip()) { at = o; x.name = Str(1, (char)g.range('a', 'z')); x.ts = (u8)x.name[0]; } p32(d, o, x.ts); p16(d, o + 4, (u16)at); o += 8; for(auto& r : x.refs) { r.name = x.name; p32(d, o, r.ts); p16(d, o + 4, (u16)at); o += 8; } }
        p32(d, o, 0); p16(d, o + 6, 0); clean = false;todo.clear(); g.label("names inside the descriptors");
    }
    Str all = d + names; u32 size = (u32)all.size(), rva; unsigned where = g.weighted({4, 3, 3}); u32 avail = 0; bool has = !g.chance(1, 20), tail = false;
    if(where == 2 && m.table_end() + all.size() + 64 > 0x1000) where = 0;
    if(where == 2) { rva = m.table_end() + (g.flip() ? 0 : (u32)g.below(32)); m.header_extra = Str(rva - m.table_end(), 0) + all; u32 grow = (u32)up(rva + all.size(), m.falign); if(grow > m.size_headers) { u32 by = grow - m.size_headers; for(Sec& s : m.secs) s.rawptr += by; m.size_headers = grow; } avail = m.size_headers - rva; g.label("in the headers"); }
    else
    {
        size_t k = (size_t)g.below(m.secs.size()); Sec& s = m.secs[k]; tail = where == 1 && p.free_[k].second == s.va + s.data.size() && p.free_[k].second - p.free_[k].first > all.size(); 
        if(tail) { rva = (u32)(p.free_[k].second - all.size()); p.free_[k].second = rva; p.put(rva, all); g.label("at the end of the section"); } else rva = p.place(all, g.flip() ? 4 : 1); Sec& t = p.sec_at(rva); avail = (u32)(t.va + t.data.size() - rva);
    }
    // one fault
    auto patch = [&](u32 off, u16 val) { p16(all, off, val); if(where == 2) { m.header_extra.replace(rva - m.table_end(), all.size(), all); } else p.put(rva, all); };
    if(!todo.empty() && g.chance(1, 6)) { auto t = todo[(size_t)g.below(todo.size())]; if(avail < 0xffff) { patch(t.first, (u16)g.edge(avail, 0xffff)); why = "name outside the data"; } }
    else if(!v.empty() && g.chance(1, 12) && avail < 0xff00) { patch(6, (u16)(avail / 8 + g.below(100))); why = "more references than there is data"; if(g.flip() && where == 1) why = "more references than there is data"; }
    else if(g.chance(1, 8) && has) { size = avail + (u32)g.edge(1, 0xffff); why = "directory size beyond the data"; }
    else if(has && where == 1 && tail && inside && g.chance(1, 2)) { Sec& s = p.sec_at(rva); u32 cut = (u32)g.range(n - 8, n - 1); why = "no room for the last descriptor"; rva = (u32)(s.va + s.data.size()) - cut; p.put(rva, all.substr(0, cut)); size = (u32)g.below(cut + 1); }
    else if(has && where == 1 && tail && !inside && g.chance(1, 4))
    {   // the last name, or the list, runs to the end of the section without its end
        Sec& s = p.sec_at(rva); u32 cut; if(!v.empty() && g.flip()) { cut = (u32)all.size() - 1; if(!clean) g.discard(); why = "name without a terminator"; } else { cut = (u32)g.range(1, n - 1); why = "descriptors cut off"; }
        rva = (u32)(s.va + s.data.size()) - cut; p.put(rva, all.substr(0, cut)); size = (u32)g.below(cut + 1);
    }
    else if(g.flip()) size = (u32)g.below(avail + 1);
    if(why.empty() || g.flip()) p.trim();
    if(has) m.dirs[11] = {rva, size}; std::ostringstream s; s << "read: " << describe(m) << " directory at " << hx(rva) << "+" << hx(size) << show(v) << " " << why; g.note(s.str());
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0); Pe pe = must_load(f, m.p64, "bound.load"); CHECK_EQ(pe->has_bound_import(), has, "bound.has"); bound_import_module_list l; bool thr = throws_pe([&] { l = get_bound_import_module_list(*pe); });
    if(!has) { CHECK(!thr && l.empty(), "bound.none", "bound imports without a directory"); return; }
    CHECK(thr == !why.empty(), "bound.accept", (thr ? Str("a valid bound import directory was refused") : "accepted: " + why)); g.nontrivial(); if(thr) { g.label("refused: " + why); return; } CHECK(same(of(l), v), "bound.read", "got" << show(of(l)) << ", expected" << show(v));
}
static void rebuild_part(Gen& g)
{
    Img m = host_img(g, (unsigned)g.range(1, 3), 2, -1, true, addressable); Placer p(g, m); if(g.chance(1, 3)) p.trim(); Pe pe = must_load(write(m), m.p64, "boundreb.load"); Host h(g, pe, ".bound"); std::vector<Mod> v = gen_mods(g, g.chance(1, 60) ? 1600 : 8); if(v.size() && g.chance(1, 40)) { v.back().name = Str((size_t)g.edge(64000, 67000), 'L'); if(g.flip()) { v.push_back(v[0]); v.back().name = "after"; } }
    if(!v.empty() && g.chance(1, 40))
    {   // the last name starts just at, before or beyond what 16 bits can address
        if(v.size() < 2) v.push_back(v[0]); v.resize(2 + (size_t)g.below(v.size() - 1)); v.back().refs.clear(); u64 n = 8, at = 0; for(Mod& x : v) { n += 8 + 8 * x.refs.size(); if(&x != &v.back()) { at += x.name.size() + 1; for(Ref& r : x.refs) at += r.name.size() + 1; } } u64 want = (u64)g.range(0xfffd, 0x10002); if(n + at < want) { Str& s = v[0].refs.empty() || g.flip() ? v[0].name : v[0].refs[0].name; s += Str((size_t)(want - n - at), 'p'); g.label("at the 16-bit limit"); }
    }
    bound_import_module_list l; for(Mod& x : v) { bound_import b = g.flip() ? bound_import(x.name, x.ts) : bound_import(); b.set_module_name(x.name); b.set_timestamp(x.ts); for(Ref& r : x.refs) { bound_import_ref y = g.flip() ? bound_import_ref(r.name, r.ts) : bound_import_ref(); y.set_module_name(r.name); y.set_timestamp(r.ts); b.add_module_ref(y); } l.push_back(b); }
    u64 n = 8, s = 0, last = 0; for(Mod& x : v) { n += 8 + 8 * x.refs.size(); last = s; s += x.name.size() + 1; for(Ref& r : x.refs) { last = s; s += r.name.size() + 1; } } h.fit(g, n + s); u64 lo = up(h.off, 4), hi = lo + n + s; bool toobig = !v.empty() && n + last > 0xffff;
    std::ostringstream o; o << "rebuild: " << describe(m) << " -> " << h.str() << ": " << v.size() << " modules, " << n + s << " bytes" << show(v); g.note(o.str());
    Str intact = whole(*pe); image_directory ret; bool thr = false; Str msg, why; try { ret = rebuild_bound_imports(*pe, l, *h.s, h.off, h.save, h.strip); } catch(const pe_exception& e) { thr = true; msg = e.what(); } if(thr) CHECK(whole(*pe) == intact, "boundreb.refused-change", "the image was changed although the request was refused: " << msg);
    g.nontrivial(); if(h.unattached()) { CHECK(thr, "boundreb.unattached", "rebuilt into a section which is not part of the image"); return; }
    if(thr) { CHECK((!h.last && h.room < hi) || toobig, "boundreb.refused", "refused although " << h.room << " bytes are there and " << hi << " are needed: " << msg); g.label(toobig ? "refused: beyond 16-bit offsets" : "refused: no room"); return; }
    CHECK(h.last || h.room >= hi, "boundreb.room", hi << " bytes accepted in a section of " << h.room);
    h.untouched(pe, {{h.idx, lo, hi}}, "boundreb.clobber"); CHECK_EQ(pe->get_directory_rva(11), h.save ? ret.get_rva() : 0, "boundreb.header"); CHECK_EQ(pe->get_directory_size(11), h.save ? ret.get_size() : 0, "boundreb.header"); CHECK_EQ((u64)ret.get_rva(), h.s->get_virtual_address() + lo, "boundreb.rva"); CHECK_EQ((u64)ret.get_size(), n + s, "boundreb.size");
    if(h.save) { bound_import_module_list y; CHECK(!throws_pe([&] { y = get_bound_import_module_list(*pe); }) && same(of(y), v), "boundreb.inmemory", "the image reads back" << show(of(y)) << " before it is saved, expected" << show(v)); }
    pe->set_directory_rva(11, ret.get_rva()); pe->set_directory_size(11, ret.get_size()); Str out = rebuilt(*pe); Img r; CHECK(parse(out, r, why) && well_formed(r, out.size(), why), "boundreb.file", why); Mem q(r); u32 a = ret.get_rva(), end = a + ret.get_size(); std::vector<Mod> w;
    try { for(u32 at = a; ; ) { CHECK(at + 8 <= end, "boundreb.terminator", "the list of descriptors has no end"); u16 nm = q.r16(at + 4), k = q.r16(at + 6); if(!nm) { CHECK(q.r32(at) == 0 && k == 0, "boundreb.terminator", "the last descriptor is not zero"); break; } Mod x{q.z(a + nm), q.r32(at), {}}; at += 8; for(; k; --k, at += 8) { CHECK(at + 8 <= end, "boundreb.terminator", "references outside the directory"); x.refs.push_back({q.z(a + q.r16(at + 4)), q.r32(at)}); } w.push_back(x); } }
    catch(const OutOfRange&) { fail("boundreb.decode", "the rebuilt directory leaves the image"); }
    CHECK(same(w, v), "boundreb.decode", "the file declares" << show(w) << ", expected" << show(v)); CHECK(!toobig, "boundreb.toobig", "names beyond 16-bit offsets accepted");
    bound_import_module_list y; CHECK(!throws_pe([&] { y = get_bound_import_module_list(*must_load(out, m.p64, "boundreb.reload")); }) && same(of(y), v), "boundreb.reread", "the rebuilt directory reads back" << show(of(y)) << ", expected" << show(v));
}
static void run(Gen& g) { if(g.flip()) read_part(g); else rebuild_part(g); }
const pbt::PropInfo pbt::prop_info = {"C22", "Bound import directories (modules, forwarder references, shared and shuffled names, in headers or sections) laid out by the reference writer and read, or rebuilt from generated lists, also beyond 16-bit offsets, and decoded by a reference reader. Non-trivial: a directory read, rebuilt or refused.", run, 100000, 3000000, 0, 0, 20};
