// C20: TLS information is read exactly and rebuilt so that an independent reader finds the same.
#include "gen_pe.h"
using namespace ref;
struct Tls { u64 start = 0, end = 0, index = 0, cbs = 0; u32 zf = 0, ch = 0; };
static Str pack(const Tls& t, bool p64) { return leptr(t.start, p64) + leptr(t.end, p64) + leptr(t.index, p64) + leptr(t.cbs, p64) + le<u32>(t.zf) + le<u32>(t.ch); }
static void read_part(Gen& g)
{
    bool vast = throng(g); Img m = host_img(g, (unsigned)g.range(1, 2), vast ? 24 : 2, -1, false, addressable); Placer p(g, m, true, true); Tls t; Str data, why; std::vector<u32> cbs; bool p64 = m.p64; u32 ps = p64 ? 8 : 4; Str hdr = write(m).substr(0, m.size_headers); hdr.resize(m.size_headers, 0);
    u32 start = 0, cbrva = 0; auto sec_end = [&](u32 rva) { for(Sec& s : m.secs) if(rva >= s.va && rva < s.va + s.vsize) return s.va + (u32)up(s.vsize, m.salign); return m.size_headers; };
    t.zf = g.u32any(); t.ch = g.u32any(); if(g.chance(3, 4)) t.index = m.base + g.edge(1, 0xffffff);
    unsigned kind = g.weighted({6, 2, 2, 2, 1, 1, 1, 1}); int sect = (int)g.below(m.secs.size()); bool bad_va = false;
    if(kind == 0) { data = g.bytes((size_t)g.edge(1, 600)); start = p.place(data, 1, sect); t.start = m.base + start; t.end = t.start + data.size(); }
    else if(kind == 1) {}                                                                // no raw data
    else if(kind == 2) { start = (u32)g.range(m.secs[0].va, m.size_image - 1); t.start = t.end = m.base + start; }
    else if(kind == 3) { bad_va = true; t.start = t.end = g.flip() && m.base ? g.edge(1, m.base) - 1 : p64 ? m.base + 0x100000000ull + g.below(1000) : m.base ? m.base - 1 : 0; if(!p64 && t.start > 0xffffffff) t.start = t.end = 0; if(!(t.start < m.base || t.start - m.base > 0xffffffffull)) bad_va = false; }
    else if(kind == 4) { Sec& s = m.secs[sect]; u32 e = sec_end(s.va); start = e - (u32)g.range(1, 64); u32 n = e - start + (g.flip() ? 0 : (u32)g.range(1, 9)); if(n > e - start) why = "raw data beyond its section"; t.start = m.base + start; t.end = t.start + n; data = g.bytes(n); p.put(start, data.substr(0, e - start)); p.free_[sect].second = std::min<u64>(p.free_[sect].second, start); }
    else if(kind == 5) { start = (u32)g.range(m.secs[0].va, m.size_image - 1); t.start = m.base + start; t.end = t.start - g.range(1, t.start - m.base); why = "raw data ends before its start"; }
    else if(kind == 6) { start = (u32)g.range(m.size_image, m.size_image + 0x100000); t.start = m.base + start; t.end = t.start + g.range(1, 100); why = "raw data outside the image"; }
    else { start = (u32)g.range(1, m.size_headers - 1); u32 n = (u32)g.range(1, m.size_headers - start + (g.chance(1, 4) ? 4 : 0)); if(n > m.size_headers - start) why = "raw data beyond the headers"; else data = hdr.substr(start, n); t.start = m.base + start; t.end = t.start + n; }
    unsigned ck = vast ? 0 : g.weighted({5, 3, 1, 1}); if(ck == 0) for(size_t i = vast ? (size_t)g.range(1025, 5000) : crowd(g, 6); i; --i) { u32 r = g.u32any(); u64 va = m.base + r; if(!p64) va &= 0xffffffff; if(!va) continue; cbs.push_back(r); }
    auto tab = [&](bool term) { Str s; for(u32 c : cbs) s += leptr(m.base + c, p64); if(term) s += Str(ps, 0); return s; };
    if(ck == 0) { cbrva = p.place(tab(true), g.flip() ? ps : 1); t.cbs = m.base + cbrva; }
    else if(ck == 2)
    {   // the array touches the end of its section
        size_t k = (size_t)g.below(m.secs.size()); if(p.free_[k].second == sec_end(m.secs[k].va) && p.free_[k].second - p.free_[k].first > 400) { bool term = g.flip(); u32 n = (u32)g.range(0, 4); for(u32 i = 0; i < n; ++i) cbs.push_back((u32)g.range(1, 0xffffff)); Str s = tab(term); u32 cut = term || s.empty() ? 0 : (u32)g.below(ps); s.resize(s.size() - cut); cbrva = (u32)(p.free_[k].second - s.size()); if(s.empty()) cbrva = sec_end(m.secs[k].va); else { p.free_[k].second = cbrva; p.put(cbrva, s); } t.cbs = m.base + cbrva; if(!term && !cut && k + 1 < m.secs.size()) g.discard(); if(!term && why.empty()) why = "callbacks without a terminator"; }
    }
    else if(ck == 3 && why.empty()) { cbrva = (u32)g.range(m.size_image, m.size_image + 0x10000); t.cbs = m.base + cbrva; why = "callbacks outside the image"; }
    if(kind != 3 && kind < 5 && why.empty() && g.chance(1, 12)) { t.index = g.flip() && m.base ? m.base - 1 : p64 ? m.base + 0x100000000ull : t.index; if(t.index && (t.index < m.base || t.index - m.base > 0xffffffffull)) why = "index address below or beyond the image"; }
    Str d = pack(t, p64); u32 rva; bool has = !g.chance(1, 20);
    if(g.chance(1, 8)) { size_t k = (size_t)g.below(m.secs.size()); rva = sec_end(m.secs[k].va) - (u32)g.range(1, d.size()); if(p.free_[k].second == sec_end(m.secs[k].va) && p.free_[k].first <= rva) { if(rva + d.size() > sec_end(m.secs[k].va)) { p.put(rva, d.substr(0, sec_end(m.secs[k].va) - rva)); why = "directory beyond its section"; } else p.put(rva, d); } else rva = p.place(d); }
    else rva = p.place(d, g.flip() ? ps : 1);
    if(has) m.dirs[9] = {rva, g.chance(1, 2) ? (u32)d.size() : g.u32any()}; if(why.empty() || g.flip()) p.trim();
    std::ostringstream o; o << "read: " << describe(m) << " directory at " << hx(rva) << " raw " << hx(t.start) << ".." << hx(t.end) << " index " << hx(t.index) << " callbacks " << hx(t.cbs) << "(" << cbs.size() << ") " << why; g.note(o.str());
    if(kind == 7 && why.empty()) { hdr = write(m).substr(0, m.size_headers); hdr.resize(m.size_headers, 0); data = hdr.substr(start, data.size()); }
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0); Pe pe = must_load(f, p64, "tls.load"); CHECK_EQ(pe->has_tls(), has, "tls.has"); tls_info i; bool thr = throws_pe([&] { i = get_tls_info(*pe); });
    if(!has) { CHECK(thr, "tls.none", "TLS without a directory"); g.label("no TLS"); return; }
    CHECK(thr == !why.empty(), "tls.accept", (thr ? Str("a valid TLS directory was refused") : "accepted a directory with " + why)); g.nontrivial(); if(thr) { g.label("refused: " + why); return; }
    g.label(kind == 0 ? "raw data" : kind == 3 ? "addresses out of range" : "other data"); auto r = [&](u64 va) { return va ? (u32)(va - m.base) : 0; };
    CHECK_EQ(i.get_raw_data_start_rva(), bad_va ? 0 : r(t.start), "tls.start"); CHECK_EQ(i.get_raw_data_end_rva(), bad_va ? 0 : r(t.end), "tls.end"); CHECK_EQ(i.get_index_rva(), r(t.index), "tls.index"); CHECK_EQ(i.get_callbacks_rva(), r(t.cbs), "tls.callbacks rva");
    CHECK_EQ(i.get_size_of_zero_fill(), t.zf, "tls.zerofill"); CHECK_EQ(i.get_characteristics(), t.ch, "tls.characteristics"); CHECK_EQ(i.get_raw_data(), data, "tls.data"); CHECK(i.get_tls_callbacks() == cbs, "tls.callbacks", "got " << i.get_tls_callbacks().size() << " callbacks, expected " << cbs.size());
}
static void rebuild_part(Gen& g)
{
    unsigned ns = (unsigned)g.range(1, 3); bool vast = throng(g); Img m = host_img(g, ns, vast ? 24 : 2, -1, true, addressable); Placer p(g, m); if(g.flip()) p.trim(); Pe pe = must_load(write(m), m.p64, "tlsreb.load"); bool p64 = m.p64; u32 ps = p64 ? 8 : 4, ds = p64 ? 40 : 24;
    Host h(g, pe, ".tls"); auto& secs = pe->get_image_sections(); size_t n = secs.size(); tls_info i; u32 zf = g.u32any(), ch = g.u32any(), index = g.chance(1, 12) ? 0 : (u32)g.edge(1, 0x7fffffff); if(g.chance(1, 12)) index = g.u32any();
    h.fit(g, ds); u64 lo = up(h.off, ps), hi = lo + ds; auto cbs = std::vector<u32>(); Str data; u32 start = 0, size = 0, cb = 0; bool wd = g.flip(), wc = g.flip(); auto expand = g.flip() ? tls_data_expand_raw : tls_data_expand_virtual;
    auto vend = [&](size_t k) { return (u64)secs[k].get_virtual_address() + secs[k].get_aligned_virtual_size(m.salign); };
    size_t ksec = (size_t)g.below(n), csec = (size_t)g.below(n); bool outside = g.chance(1, 16);
    unsigned dk = g.weighted({6, 2, 1}); if(dk == 0) { start = (u32)g.edge(secs[ksec].get_virtual_address(), vend(ksec) - 1); size = (u32)g.edge(0, g.chance(1, 200) ? 0x12000 : 300); if(outside) start = (u32)(vend(n - 1) + 0x40000 + g.below(1000)); } else if(dk == 1) size = 0; else { start = secs[0].get_virtual_address() + 0x1000; size = 0; }
    bool backwards = g.chance(1, 16) && start && size; u32 end = backwards ? start - (u32)g.range(1, 100) : start + size; size_t dlen = g.chance(1, 2) ? size : (size_t)g.below(size + 40); data = g.bytes(dlen);
    bool hascb = g.chance(2, 3), cboutside = hascb && g.chance(1, 16); if(hascb) { for(size_t k = vast ? (size_t)g.range(1025, 5000) : crowd(g, 6); k; --k) cbs.push_back(g.chance(1, 20) ? g.u32any() : (u32)g.range(1, 0xffffff)); cb = (u32)g.edge(secs[csec].get_virtual_address(), vend(csec) - 1); if(g.chance(1, 3)) { u64 q = secs[csec].get_virtual_address() + secs[csec].get_raw_data().size(); u64 back = ps * (cbs.size() + g.below(2)); if(q >= back + secs[csec].get_virtual_address()) cb = (u32)std::min<u64>(q - back, vend(csec) - 1); } if(cboutside) cb = (u32)(vend(n - 1) + 0x40000 + g.below(1000)); }
    u32 cneed = (u32)(cbs.size() + 1) * ps;
    // what would be written where: the areas must not overlap, and the directory goes to the host section
    u64 hv = h.unattached() ? 0 : h.s->get_virtual_address(); auto overlap = [](u64 a, u64 b, u64 c, u64 d) { return a < d && c < b; };
    if(wd && size && overlap(start, end, hv + lo, hv + hi)) g.discard(); if(wc && hascb && overlap(cb, (u64)cb + cneed, hv + lo, hv + hi)) g.discard(); if(wd && size && wc && hascb && overlap(start, end, cb, (u64)cb + cneed)) g.discard();
    i.set_raw_data_start_rva(start); i.set_raw_data(data); if(g.flip() && !backwards && dlen == size) { i.recalc_raw_data_end_rva(); CHECK_EQ(i.get_raw_data_end_rva(), end, "tlsreb.recalc"); } else i.set_raw_data_end_rva(end);
    i.set_index_rva(index); i.set_callbacks_rva(cb); i.set_size_of_zero_fill(zf); i.set_characteristics(ch); if(g.chance(1, 4)) { i.add_tls_callback(1); i.clear_tls_callbacks(); } for(u32 c : cbs) i.add_tls_callback(c);
    std::ostringstream o; o << "rebuild: " << describe(m) << " -> " << h.str() << " data " << hx(start) << ".." << hx(end) << " (" << dlen << " bytes, write=" << wd << ", expand " << (expand == tls_data_expand_raw ? "raw" : "virtual") << ") index " << hx(index) << " callbacks " << hx(cb) << "(" << cbs.size() << ", write=" << wc << ")"; g.note(o.str());
    // expectations
    Str why; bool conv = false; auto unconv = [&](u64 rva) { return !p64 && rva + m.base > 0xffffffffull; };
    if(!h.last && h.room < hi) why = "no room for the directory"; else if(backwards || index == 0) why = "inconsistent information";
    if(start && unconv(start)) conv = true; if(end && unconv(end)) conv = true; if(unconv(index)) conv = true; if(cb && unconv(cb)) conv = true;
    std::vector<Str> want = h.before; std::vector<Host::Area> areas; if(!h.unattached()) { areas.push_back({h.idx, lo, hi}); if(want[h.idx].size() < hi) want[h.idx].resize((size_t)hi, 0); }
    auto put = [&](size_t k, u64 o, const Str& b) { Str& w = want[k]; if(b.empty() || o >= w.size()) return; w.replace((size_t)o, std::min<u64>(b.size(), w.size() - o), b, 0, (size_t)std::min<u64>(b.size(), w.size() - o)); areas.push_back({k, o, o + b.size()}); };
    if(why.empty() && wd && start && start != end)
    {
        if(dk == 0 && outside) why = "data outside the image";
        else { size_t k = ksec; u64 so = start - secs[k].get_virtual_address(); bool kl = k + 1 == n; u64 virt = vend(k) - start; if(kl && expand == tls_data_expand_raw && want[k].size() < so + size) want[k].resize((size_t)(so + size), 0); u64 raw = want[k].size() > so ? want[k].size() - so : 0; if(raw < size && virt < size && !kl) why = "no room for the data"; else put(k, so, data.substr(0, (size_t)std::min<u64>({raw, size, dlen}))); }
    }
    if(why.empty() && wc && hascb)
    {
        if(cboutside) why = "callbacks outside the image";
        else { size_t k = csec; u64 so = cb - secs[k].get_virtual_address(); bool kl = k + 1 == n; u64 virt = vend(k) - cb; if(kl && want[k].size() < so + cneed) want[k].resize((size_t)(so + cneed), 0); u64 raw = want[k].size() > so ? want[k].size() - so : 0; if(!kl && (raw < cneed - ps || virt < cneed)) why = "no room for the callbacks"; Str t; for(u32 c : cbs) { if(unconv(c)) conv = true; t += leptr(m.base + c, p64); } t += Str(ps, 0); if(why.empty()) { put(k, so, t); } }
    }
    Str intact = whole(*pe); image_directory ret; bool thr = false; Str msg; try { ret = rebuild_tls(*pe, i, *h.s, h.off, wc, wd, expand, h.save, h.strip); } catch(const pe_exception& e) { thr = true; msg = e.what(); } if(thr && why == "no room for the directory") CHECK(whole(*pe) == intact, "tlsreb.refused-change", "the image was changed although the request was refused: " << msg);
    if(h.unattached()) { CHECK(thr, "tlsreb.unattached", "TLS rebuilt into a section which is not part of the image"); g.nontrivial(); return; }
    if(why.empty() && conv) why = "an address which has no 32-bit VA";
    CHECK(thr == !why.empty(), "tlsreb.refused", (thr ? "refused a valid request: " + msg : "accepted: " + why)); g.nontrivial(); if(thr) { g.label("refused: " + why); return; }
    h.untouched(pe, areas, "tlsreb.clobber"); CHECK_EQ(pe->get_directory_rva(9), h.save ? ret.get_rva() : 0, "tlsreb.header"); CHECK_EQ(pe->get_directory_size(9), h.save ? ret.get_size() : 0, "tlsreb.header"); CHECK_EQ(ret.get_rva(), (u32)(hv + lo), "tlsreb.rva"); CHECK_EQ(ret.get_size(), ds, "tlsreb.size");
    auto va = [&](u32 r) { return r ? m.base + r : 0; }; Tls t; t.start = va(start); t.end = va(end); t.index = va(index); t.cbs = va(cb); t.zf = zf; t.ch = ch; put(h.idx, lo, pack(t, p64));
    pe->set_directory_rva(9, ret.get_rva()); pe->set_directory_size(9, ret.get_size()); Str out = rebuilt(*pe); Img r; CHECK(parse(out, r, why) && well_formed(r, out.size(), why), "tlsreb.file", why);
    Mem q(r); CHECK_EQ(q.blob(ret.get_rva(), ds), pack(t, p64), "tlsreb.directory");
    for(size_t k = 0; k < n; ++k) { Str now = r.secs[k].data, w = want[k]; size_t z = std::max(now.size(), w.size()); now.resize(z, 0); w.resize(z, 0); size_t b = 0; while(b < z && now[b] == w[b]) ++b; CHECK(b == z, "tlsreb.bytes", "byte " << hx(b) << " of section " << k << " is " << hx((u8)now[b]) << " in the file, expected " << hx((u8)w[b])); }
    if(wd && size && start && !outside) { Mem q2(r); CHECK(q2.sec(end - 1) == q2.sec(start), "tlsreb.virtual", "the data does not lie in one section of the file"); g.label("data written"); } if(wc && hascb) g.label("callbacks written");
    // the library reads the file back if everything it names was written
    if(!(wc && hascb) && hascb) return; if(start && outside) return; for(u32 c : cbs) if(!va(c)) return; { u64 e2 = 0; for(Sec& s : r.secs) if(start >= s.va && start < s.va + up(s.vsize, r.salign)) e2 = s.va + up(s.vsize, r.salign); if(size && e2 < end) return; }
    tls_info x; CHECK(!throws_pe([&] { x = get_tls_info(*must_load(out, p64, "tlsreb.reload")); }), "tlsreb.reread", "the rebuilt TLS cannot be read back"); CHECK_EQ(x.get_raw_data_start_rva(), start, "tlsreb.reread"); CHECK_EQ(x.get_raw_data_end_rva(), end, "tlsreb.reread"); CHECK_EQ(x.get_index_rva(), index, "tlsreb.reread"); CHECK(x.get_tls_callbacks() == cbs, "tlsreb.reread", "callbacks differ"); CHECK_EQ(x.get_size_of_zero_fill(), zf, "tlsreb.reread"); CHECK_EQ(x.get_characteristics(), ch, "tlsreb.reread");
}
static void run(Gen& g) { if(g.flip()) read_part(g); else rebuild_part(g); }
const pbt::PropInfo pbt::prop_info = {"C20", "TLS directories (raw data in sections, zero-filled tails or headers, callbacks, addresses out of range) laid out by the reference writer and read, or rebuilt with any data/callback/expansion options and decoded by a reference reader. Non-trivial: a directory read, rebuilt or refused.", run, 120000, 4000000, 0, 0, 20};
