// C21: the load configuration is read exactly and rebuilt so that an independent reader finds the same.
#include "gen_pe.h"
using namespace ref;
struct Cfg { u32 ts = 0, gfc = 0, gfs = 0, cs = 0, phf = 0; u16 maj = 0, min = 0, csd = 0, res = 0; u64 dfb = 0, dtf = 0, lock = 0, maxa = 0, vmt = 0, aff = 0, edit = 0, cookie = 0, seh = 0, nseh = 0; };
static Str pack(const Cfg& c, bool p64, u32 size)
{
    auto P = [&](u64 v) { return leptr(v, p64); }; Str s = le<u32>(size) + le<u32>(c.ts) + le<u16>(c.maj) + le<u16>(c.min) + le<u32>(c.gfc) + le<u32>(c.gfs) + le<u32>(c.cs) + P(c.dfb) + P(c.dtf) + P(c.lock) + P(c.maxa) + P(c.vmt);
    s += p64 ? P(c.aff) + le<u32>(c.phf) : le<u32>(c.phf) + P(c.aff); return s + le<u16>(c.csd) + le<u16>(c.res) + P(c.edit) + P(c.cookie) + P(c.seh) + P(c.nseh);
}
static u32 csize(bool p64) { return p64 ? 112 : 72; }
static Cfg gen_cfg(Gen& g, bool p64)
{
    Cfg c; auto P = [&] { return p64 ? g.u64any() : (u64)g.u32any(); }; c.ts = g.u32any(); c.gfc = g.u32any(); c.gfs = g.u32any(); c.cs = g.u32any(); c.phf = g.u32any(); c.maj = g.u16any(); c.min = g.u16any(); c.csd = g.u16any(); c.dfb = P(); c.dtf = P(); c.maxa = P(); c.vmt = P(); c.aff = P(); c.edit = P(); c.cookie = P(); return c;
}
static void same(const image_config_info& i, const Cfg& c, const std::vector<u32>& seh, const std::vector<u32>& locks, const char* sig)
{
    CHECK_EQ(i.get_time_stamp(), c.ts, sig); CHECK_EQ(i.get_major_version(), c.maj, sig); CHECK_EQ(i.get_minor_version(), c.min, sig); CHECK_EQ(i.get_global_flags_clear(), c.gfc, sig); CHECK_EQ(i.get_global_flags_set(), c.gfs, sig); CHECK_EQ(i.get_critical_section_default_timeout(), c.cs, sig);
    CHECK_EQ(i.get_decommit_free_block_threshold(), c.dfb, sig); CHECK_EQ(i.get_decommit_total_free_threshold(), c.dtf, sig); CHECK_EQ(i.get_lock_prefix_table_va(), c.lock, sig); CHECK_EQ(i.get_max_allocation_size(), c.maxa, sig); CHECK_EQ(i.get_virtual_memory_threshold(), c.vmt, sig);
    CHECK_EQ(i.get_process_affinity_mask(), c.aff, sig); CHECK_EQ(i.get_process_heap_flags(), c.phf, sig); CHECK_EQ(i.get_service_pack_version(), c.csd, sig); CHECK_EQ(i.get_edit_list_va(), c.edit, sig); CHECK_EQ(i.get_security_cookie_va(), c.cookie, sig); CHECK_EQ(i.get_se_handler_table_va(), c.seh, sig); CHECK_EQ(i.get_se_handler_count(), c.nseh, sig);
    CHECK(i.get_se_handler_rvas() == seh, sig, "got " << i.get_se_handler_rvas().size() << " exception handlers, expected " << seh.size()); CHECK(i.get_lock_prefix_rvas() == locks, sig, "got " << i.get_lock_prefix_rvas().size() << " lock prefixes, expected " << locks.size());
}
static void read_part(Gen& g)
{
    bool vast = throng(g); Img m = host_img(g, (unsigned)g.range(1, 2), vast ? 24 : 2, -1, true, addressable); Placer p(g, m, true, true); bool p64 = m.p64; u32 ps = p64 ? 8 : 4, cs = csize(p64); Cfg c = gen_cfg(g, p64); c.res = g.u16any(); std::vector<u32> seh, locks; Str why;
    auto end_of = [&](size_t k) { return (u64)m.secs[k].va + up(m.secs[k].vsize, m.salign); };
    // lays out a table either anywhere or against the end of a section, possibly cut short there
    auto place = [&](const Str& t, u32 elem, const char* cut) -> u64 {
        size_t k = (size_t)g.below(m.secs.size()); if(t.size() < elem || !g.chance(1, 6) || p.free_[k].second != end_of(k) || p.free_[k].second - p.free_[k].first < t.size() + 200) return m.base + p.place(t, g.flip() ? elem : 1);
        u32 drop = 0; if(g.flip() && why.empty()) { drop = k + 1 == m.secs.size() ? (u32)g.range(1, elem) : (u32)g.range(1, elem - 1); why = cut; } Str s = t.substr(0, t.size() - drop); u32 a = (u32)(end_of(k) - s.size()); if(!s.empty()) { p.free_[k].second = a; p.put(a, s); } return m.base + a; };
    unsigned sk = g.weighted({5, 2, 1, 1}); for(size_t n = sk ? 0 : vast ? (size_t)g.range(1025, 4000) : crowd(g, 8); n; --n) seh.push_back(g.u32any());
    if(sk == 0) { Str t; for(u32 h : seh) t += le<u32>(h); c.seh = place(t, 4, "handlers cut off at the end of the section"); c.nseh = seh.size(); if(seh.empty() && g.flip()) c.seh = g.u32any() & 0xffffff; }
    else if(sk == 2) { c.seh = m.base + g.range(m.size_image, m.size_image + 0x1000); c.nseh = g.range(1, 5); why = "handlers outside the image"; }
    else if(sk == 3) { c.seh = m.base + m.secs[0].va + g.below(64); c.nseh = g.flip() && p64 ? g.edge(0x10000, ~0ull) : g.edge(0x10000, 0xffffffff); why = "more handlers than the image can hold"; }
    unsigned lk = g.weighted({5, 3, 1, 1}); for(size_t n = lk ? 0 : vast ? (size_t)g.range(1025, 4000) : crowd(g, 6); n; --n) { u32 r = g.chance(1, 4) ? g.u32any() : (u32)g.below(0x10000); u64 va = m.base + r; if(!va || (!p64 && va > 0xffffffff)) continue; locks.push_back(r); }
    if(lk == 0) { Str t; for(u32 r : locks) t += leptr(m.base + r, p64); t += Str(ps, 0); c.lock = place(t, ps, "lock prefixes without a terminator"); }
    else if(lk == 2 && why.empty()) { c.lock = m.base + g.range(m.size_image, m.size_image + 0x1000); why = "lock prefixes outside the image"; }
    else if(lk == 3 && why.empty() && m.base) { u64 bad = g.flip() ? m.base - 1 : p64 ? m.base + 0x100000000ull + g.below(99) : m.base - 1; if(bad) { c.lock = m.base + p.place(leptr(bad, p64) + Str(ps, 0)); why = "a lock prefix which is no address of the image"; } }
    u32 size = g.chance(2, 3) ? cs : (u32)g.edge(cs, 0xffffffff); if(why.empty() && g.chance(1, 12)) { size = (u32)g.edge(0, cs - 1); why = "structure of an old version"; }
    Str d = pack(c, p64, size); bool has = !g.chance(1, 20); u32 rva; size_t k = (size_t)g.below(m.secs.size());
    if(g.chance(1, 8) && p.free_[k].second == end_of(k) && p.free_[k].second - p.free_[k].first > 300) { u32 cut = g.chance(1, 3) && why.empty() ? (u32)g.range(1, cs - 1) : 0; if(cut) why = "directory beyond its section"; rva = (u32)end_of(k) - cs + cut; p.put(rva, d.substr(0, cs - cut)); } else rva = p.place(d, g.flip() ? ps : 1);
    if(has) m.dirs[10] = {rva, g.flip() ? cs : g.u32any()}; p.trim();
    std::ostringstream o; o << "read: " << describe(m) << " directory at " << hx(rva) << ", " << seh.size() << " handlers at " << hx(c.seh) << ", " << locks.size() << " lock prefixes at " << hx(c.lock) << " " << why; g.note(o.str());
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0); Pe pe = must_load(f, p64, "config.load"); CHECK_EQ(pe->has_config(), has, "config.has"); image_config_info i; bool thr = throws_pe([&] { i = get_image_config(*pe); });
    if(!has) { CHECK(thr, "config.none", "load configuration without a directory"); g.label("no load configuration"); return; }
    CHECK(thr == !why.empty(), "config.accept", (thr ? Str("a valid load configuration was refused") : "accepted: " + why)); g.nontrivial(); if(thr) { g.label("refused: " + why); return; } same(i, c, seh, locks, "config.read");
}
static void rebuild_part(Gen& g)
{
    Img m = host_img(g, (unsigned)g.range(1, 3), 2, -1, true, addressable); Placer p(g, m); if(g.flip()) p.trim(); Pe pe = must_load(write(m), m.p64, "configreb.load"); bool p64 = m.p64; u32 ps = p64 ? 8 : 4, cs = csize(p64); Host h(g, pe, ".cfg"); Cfg c = gen_cfg(g, p64); std::vector<u32> seh, locks; Str why; image_config_info i;
    for(size_t n = (size_t)g.small(12); n; --n) seh.push_back(g.chance(1, 4) ? g.u32any() : (u32)g.below(0x1000)); if(g.chance(1, 400)) { g.label("thousands of handlers"); u32 x = g.u32any(); for(size_t n = (size_t)g.range(0x800, 0x5000); n; --n) seh.push_back(x += 0x9e3779b1); } bool conv = false; for(size_t n = throng(g) ? (size_t)g.range(0x401, 0x3000) : (size_t)g.small(8); n; --n) { u32 r = g.chance(1, 8) ? g.u32any() : (u32)g.range(1, 0xffff); if(!(m.base + r)) continue; locks.push_back(r); }
    bool ws = g.flip(), wl = g.flip(); c.seh = p64 ? g.u64any() : g.u32any(); c.lock = p64 ? g.u64any() : g.u32any(); if(wl && !p64) for(u32 r : locks) if(r + m.base > 0xffffffff) conv = true;
    if(g.flip()) { pe_win::image_load_config_directory64 d; memset(&d, 0, sizeof(d)); d.TimeDateStamp = ~0u; d.SecurityCookie = 5; if(p64) i = image_config_info(d); }
    i.set_time_stamp(c.ts); i.set_major_version(c.maj); i.set_minor_version(c.min); i.set_global_flags_clear(c.gfc); i.set_global_flags_set(c.gfs); i.set_critical_section_default_timeout(c.cs); i.set_decommit_free_block_threshold(c.dfb); i.set_decommit_total_free_threshold(c.dtf); i.set_lock_prefix_table_va(c.lock); i.set_max_allocation_size(c.maxa); i.set_virtual_memory_threshold(c.vmt); i.set_process_affinity_mask(c.aff); i.set_process_heap_flags(c.phf); i.set_service_pack_version(c.csd); i.set_edit_list_va(c.edit); i.set_security_cookie_va(c.cookie); i.set_se_handler_table_va(c.seh);
    if(g.chance(1, 4)) { i.add_se_handler_rva(7); i.clear_se_handler_list(); i.add_lock_prefix_rva(7); i.clear_lock_prefix_list(); } for(u32 x : seh) i.add_se_handler_rva(x); for(u32 x : locks) i.add_lock_prefix_rva(x); const image_config_info copy = i;
    u64 need = cs + (ws ? 4 * seh.size() : 0) + (wl ? ps * (locks.size() + 1) : 0); h.fit(g, need); u64 lo = up(h.off, ps), hi = lo + need;
    std::ostringstream o; o << "rebuild: " << describe(m) << " -> " << h.str() << ", " << seh.size() << " handlers (write=" << ws << "), " << locks.size() << " lock prefixes (write=" << wl << ")"; g.note(o.str());
    Str intact = whole(*pe); image_directory ret; bool thr = false; Str msg; try { ret = rebuild_image_config(*pe, i, *h.s, h.off, ws, wl, h.save, h.strip); } catch(const pe_exception& e) { thr = true; msg = e.what(); } if(thr && !conv) CHECK(whole(*pe) == intact, "configreb.refused-change", "the image was changed although the request was refused: " << msg);
    g.nontrivial(); if(h.unattached()) { CHECK(thr, "configreb.unattached", "rebuilt into a section which is not part of the image"); return; }
    // the room needed may be up to one unused terminator less
    u64 must = hi - (wl && locks.empty() ? ps : 0); if(thr) { CHECK((!h.last && h.room < hi) || conv, "configreb.refused", "refused although " << h.room << " bytes are there and " << hi << " are needed: " << msg); g.label("refused"); return; }
    CHECK(h.last || h.room >= must, "configreb.room", must << " bytes accepted in a section of " << h.room); CHECK(!conv, "configreb.convert", "a lock prefix without a 32-bit address was accepted");
    same(i, [&] { Cfg x = c; x.nseh = copy.get_se_handler_count(); return x; }(), seh, locks, "configreb.argument"); h.untouched(pe, {{h.idx, lo, hi}}, "configreb.clobber");
    CHECK_EQ(pe->get_directory_rva(10), h.save ? ret.get_rva() : 0, "configreb.header"); CHECK_EQ(pe->get_directory_size(10), h.save ? ret.get_size() : 0, "configreb.header"); CHECK_EQ((u64)ret.get_rva(), h.s->get_virtual_address() + lo, "configreb.rva"); CHECK_EQ(ret.get_size(), cs, "configreb.size");
    std::vector<u32> sorted = seh; if(ws) std::sort(sorted.begin(), sorted.end());
    if(ws && wl) { image_config_info y; if(h.save) { CHECK(!throws_pe([&] { y = get_image_config(*pe); }), "configreb.inmemory", "the image cannot be read before it is saved"); CHECK(y.get_se_handler_rvas() == sorted && y.get_lock_prefix_rvas() == locks, "configreb.inmemory", "tables differ before the image is saved"); } }
    pe->set_directory_rva(10, ret.get_rva()); pe->set_directory_size(10, ret.get_size()); Str out = rebuilt(*pe); Img r; CHECK(parse(out, r, why) && well_formed(r, out.size(), why), "configreb.file", why); Mem q(r); u32 a = ret.get_rva(), e = (u32)(h.s->get_virtual_address() + hi); Cfg w = c; w.nseh = seh.size();
    try
    {
        Str d = q.blob(a, cs); auto ptr = [&](u32 o) { return p64 ? g64(d, o) : g32(d, o); };
        if(ws) { w.seh = ptr(cs - 2 * ps); if(seh.empty()) { CHECK_EQ(w.seh, 0, "configreb.nohandlers"); } else { u64 t = w.seh - m.base; CHECK(t >= a + cs && t + 4 * seh.size() <= e, "configreb.table", "handler table at " << hx(t) << " is not inside the rebuilt area"); for(size_t k = 0; k < seh.size(); ++k) CHECK_EQ(q.r32((u32)t + 4 * (u32)k), sorted[k], "configreb.handlers"); } }
        if(wl) { w.lock = ptr(24 + 2 * ps); if(locks.empty()) { CHECK_EQ(w.lock, 0, "configreb.nolocks"); } else { u64 t = w.lock - m.base; CHECK(t >= a + cs && t + ps * (locks.size() + 1) <= e, "configreb.table", "lock prefix table at " << hx(t) << " is not inside the rebuilt area"); for(size_t k = 0; k <= locks.size(); ++k) CHECK_EQ(q.rptr((u32)(t + ps * k)), k < locks.size() ? m.base + locks[k] : 0, "configreb.locks"); if(ws && !seh.empty()) { u64 s = w.seh - m.base; CHECK(s + 4 * seh.size() <= t || t + ps * (locks.size() + 1) <= s, "configreb.overlap", "the tables overlap"); } } }
        CHECK_EQ(d, pack(w, p64, cs), "configreb.structure");
    }
    catch(const OutOfRange&) { fail("configreb.decode", "the rebuilt directory leaves the image"); }
    if(!ws || !wl) return;
    image_config_info y; CHECK(!throws_pe([&] { y = get_image_config(*must_load(out, p64, "configreb.reload")); }), "configreb.reread", "the rebuilt directory cannot be read back"); same(y, w, sorted, locks, "configreb.reread");
}
static void run(Gen& g) { if(g.flip()) read_part(g); else rebuild_part(g); }
const pbt::PropInfo pbt::prop_info = {"C21", "Load configuration directories (all fields, handler and lock prefix tables anywhere, against section ends, in zero-filled tails) laid out by the reference writer and read, or rebuilt with every option and decoded by a reference reader. Non-trivial: a directory read, rebuilt or refused.", run, 120000, 4000000, 0, 0, 20};
