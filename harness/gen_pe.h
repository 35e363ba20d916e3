// Generators of reference images and adapters between the reference model and the library.
#pragma once
#include "pe_ref.h"
#include "pe_bliss.h"
#include <memory>

namespace ref
{
using namespace pe_bliss;

struct GenOpt
{
    bool low_align = true;      // images with SectionAlignment == FileAlignment < 4096
    bool odd_layout = true;     // unaligned raw pointers, gaps, permuted raw data, optional header slack
    bool random_dirs = true;    // arbitrary directory entries
    bool tiny_header = true;    // e_lfanew inside the DOS header
    bool many_secs = true;
    bool long_parts = false;   // now and then a DOS stub or a section of up to a megabyte and more
    bool no_raw = true;         // sections without raw data
    bool raw_gt_virtual = true; // SizeOfRawData beyond the virtual size
    bool high = false;          // sections at the highest addresses
    int bits = -1;              // -1 any, 0 PE32, 1 PE32+
    unsigned min_secs = 0;
    bool full_dirs = false;     // always 16 directory entries
    u32 max_vpages = 4;
};

inline Img gen_img(Gen& g, const GenOpt& o = GenOpt())
{
    Img m;
    m.p64 = o.bits < 0 ? g.flip() : o.bits != 0;
    if(m.p64) m.machine = 0x8664;
    if(g.chance(1, 2))
    {
        for(int i = 1; i < 30; ++i) m.dos[i] = (u16)g.below(0x10000);
    }
    if(g.chance(1, 2))
    {
        m.machine = g.u16any(); m.timestamp = g.u32any(); m.symptr = g.u32any(); m.nsyms = g.u32any(); m.chars = g.u16any();
        m.majl = (u8)g.below(256); m.minl = (u8)g.below(256); m.scode = g.u32any(); m.sidata = g.u32any(); m.sudata = g.u32any(); m.ep = g.u32any(); m.bcode = g.u32any(); m.bdata = m.p64 ? 0 : g.u32any();
        m.majos = g.u16any(); m.minos = g.u16any(); m.majimg = g.u16any(); m.minimg = g.u16any(); m.majsub = g.u16any(); m.minsub = g.u16any(); m.win32ver = g.u32any(); m.checksum = g.u32any();
        m.subsystem = g.u16any(); m.dllchars = g.u16any(); m.loaderflags = g.u32any();
        if(m.p64) { m.sres = g.u64any(); m.scom = g.u64any(); m.hres = g.u64any(); m.hcom = g.u64any(); } else { m.sres = g.u32any(); m.scom = g.u32any(); m.hres = g.u32any(); m.hcom = g.u32any(); }
    }
    switch(g.weighted({3, 2, 2, 1}))
    {
    case 0: break;
    case 1: m.base = m.p64 ? 0x140000000ull : 0x10000000; break;
    case 2: m.base = m.p64 ? (g.u64any() & ~0xffffull) : (g.u32any() & ~0xffffu); break;
    default: m.base = m.p64 ? 0x7ffe00000000ull : 0xfff00000; break;
    }
    switch(g.weighted({6, 2, 1, 1, o.low_align ? 2u : 0u}))
    {
    case 0: m.salign = 0x1000; m.falign = 0x200; break;
    case 1: m.salign = 0x1000; m.falign = g.pick({0x400u, 0x800u, 0x1000u}); break;
    case 2: m.salign = 0x2000; m.falign = g.pick({0x200u, 0x1000u, 0x2000u}); break;
    case 3: m.salign = 0x10000; m.falign = g.pick({0x200u, 0x1000u, 0x10000u}); break;
    default: m.salign = m.falign = g.pick({0x200u, 0x10u, 0x20u, 0x40u, 0x80u, 0x400u}); g.label("low alignment"); break;
    }
    m.ndirs = o.full_dirs ? 16 : g.chance(1, 3) ? (u32)g.below(17) : 16;
    if(o.random_dirs && g.chance(1, 2))
        for(u32 i = 0; i < m.ndirs; ++i) if(g.chance(1, 3)) m.dirs[i] = std::make_pair(g.u32any(), g.u32any());
    if(o.tiny_header && g.chance(1, 10)) { m.lfanew = 16; m.bcode = 16; g.label("header inside the DOS header"); }
    else if(g.chance(1, 2)) { u32 n = (u32)g.edge(0, 512) & ~3u; if(o.long_parts && g.chance(1, 600)) { n = (u32)g.range(0x400, 0x5000) * 4; g.label("long stub"); } m.stub = g.bytes(n); m.lfanew = 64 + n; }
    if(o.odd_layout && g.chance(1, 8)) m.opt_extra = (u32)g.below(65);
    unsigned ns = g.weighted({1, 4, 4, 3, 2, 1, 1});
    if(o.many_secs && g.chance(1, 40)) ns = (unsigned)g.range(7, 96);
    ns = std::max(ns, o.min_secs);
    m.secs.resize(ns);
    u32 hdr_end = m.table_end();
    if(o.odd_layout && g.chance(1, 6)) { m.header_extra = g.bytes((size_t)g.range(1, 200)); hdr_end += (u32)m.header_extra.size(); }
    m.size_headers = (u32)up(hdr_end, m.falign);
    u32 va = (u32)up(m.size_headers, m.salign) + (g.chance(1, 8) ? m.salign * (u32)g.range(1, 3) : 0);
    u32 ptr = m.size_headers;
    u32 unit = std::min<u32>(m.salign, 0x2000);
    std::vector<size_t> order(ns); for(size_t i = 0; i < ns; ++i) order[i] = i;
    for(size_t i = 0; i < ns; ++i)
    {
        Sec& s = m.secs[i];
        s.name = g.chance(1, 3) ? g.pick({Str(".text"), Str(".rdata"), Str(".data"), Str(".rsrc"), Str("12345678")}) : g.name(0, 8);
        s.vsize = ns > 8 ? (u32)g.range(1, unit) : (u32)g.edge(1, (u64)unit * o.max_vpages); if(ns < 6 && g.chance(1, 400)) { s.vsize = (u32)g.range(0x10000, 0x50000); g.label("large section"); if(o.long_parts && g.chance(1, 12)) { s.vsize += 0x100000; g.label("section of more than a megabyte"); } }
        s.va = va; va += (u32)up(s.vsize, m.salign);
        u32 cap = (u32)up(s.vsize, m.salign);                // raw data may fill the whole aligned range
        u32 kind = g.weighted({4, 3, o.no_raw ? 2u : 0u, 2});
        u32 raw;
        if(kind == 0) raw = (u32)std::min<u64>(up(s.vsize, m.falign), cap);          // full, aligned
        else if(kind == 1) raw = (u32)g.range(1, s.vsize);
        else if(kind == 2) raw = 0;
        else raw = (u32)std::min<u64>(up(g.range(1, s.vsize), m.falign), cap);
        s.rawsize = raw;
        s.chars = g.chance(1, 2) ? g.u32any() : 0x60000020;
        if(g.chance(1, 6)) { s.relocptr = g.u32any(); s.lineptr = g.u32any(); s.nreloc = g.u16any(); s.nline = g.u16any(); }
    }
    if(o.odd_layout && ns > 1 && g.chance(1, 8)) { for(size_t i = ns; i > 1; --i) std::swap(order[i - 1], order[(size_t)g.below(i)]); g.label("raw order differs from virtual order"); }
    for(size_t k : order)
    {
        Sec& s = m.secs[k];
        if(s.rawsize == 0) { if(g.chance(1, 4)) s.rawptr = (u32)(g.chance(1, 4) ? g.edge(0, 0x7fffffff) : ptr); continue; }
        if(o.odd_layout && g.chance(1, 10)) ptr += m.falign * (u32)g.range(1, 3);
        s.rawptr = ptr; s.data = g.bytes(s.rawsize); ptr += (u32)up(s.rawsize, m.falign);
    }
    if(o.raw_gt_virtual && ns && g.chance(1, 10))
    {   // the loader keeps only VirtualSize bytes of an oversized section; it must be the last one in the file here
        Sec& s = m.secs[order[ns - 1]];
        if(s.rawsize) { s.rawsize = (u32)up(s.vsize, m.salign) + (u32)g.range(1, 3 * m.falign); s.data = g.bytes(s.rawsize); g.label("raw size beyond virtual size"); }
    }
    if(o.odd_layout && m.falign > 1) for(Sec& s : m.secs) if(s.rawsize && g.chance(1, 20)) { s.rawptr += (u32)g.below(m.falign); g.label("unaligned raw pointer"); }
    if(o.high && ns && g.chance(1, 12)) { u32 by = (u32)down(0xffe00000u - va, m.salign) - m.salign * (u32)g.below(3); if(g.flip() && va < 0x7fff0000u) by = (u32)down(0x80000000u - va, m.salign) + m.salign * (u32)g.below(2); for(Sec& s : m.secs) s.va += by; va += by; g.label("sections at high addresses"); }
    m.size_image = ns ? va : (u32)up(m.size_headers, m.salign);
    if(ns && g.chance(1, 10)) m.size_image += m.salign * (u32)g.range(1, 4);
    if(ns && g.chance(1, 10)) m.size_image -= (u32)g.below(m.salign);   // unaligned SizeOfImage, same aligned value
    if(g.chance(1, 4)) m.overlay = g.bytes((size_t)g.range(1, 100));
    if(ns) g.label(ns > 6 ? "7..96 sections" : std::to_string(ns) + " sections"); else g.label("no sections");
    g.label(m.p64 ? "PE32+" : "PE32");
    return m;
}

inline std::string describe(const Img& m)
{
    std::ostringstream o;
    o << (m.p64 ? "PE32+" : "PE32") << " falign=" << hx(m.falign) << " salign=" << hx(m.salign) << " lfanew=" << m.lfanew << " dirs=" << m.ndirs << " headers=" << hx(m.size_headers) << " image=" << hx(m.size_image) << " base=" << hx(m.base) << " secs=[";
    for(size_t i = 0; i < m.secs.size() && i < 8; ++i) { const Sec& s = m.secs[i]; o << (i ? " " : "") << "va " << hx(s.va) << " vsize " << hx(s.vsize) << " raw " << hx(s.rawsize) << "@" << hx(s.rawptr); }
    o << (m.secs.size() > 8 ? " ..." : "") << "] overlay=" << m.overlay.size();
    return o.str();
}

typedef std::unique_ptr<pe_base> Pe;
inline Pe load(const Str& file, bool p64, bool mem = false, bool dbg = true)
{
    std::istringstream is(file, std::ios::binary | std::ios::in);
    if(p64) return Pe(new pe_base(is, pe_properties_64(), mem, dbg));
    return Pe(new pe_base(is, pe_properties_32(), mem, dbg));
}
inline Pe must_load(const Str& file, bool p64, const char* sig, bool mem = false)
{
    try { return load(file, p64, mem); }
    catch(const pe_exception& e) { fail(sig, std::string("image was rejected: ") + e.what()); }
}
inline Str rebuilt(pe_base& pe, bool strip = false, bool hdrs = true, bool bound = true)
{
    std::ostringstream os(std::ios::binary | std::ios::out);
    rebuild_pe(pe, os, strip, hdrs, bound);
    if(!os) fail("rebuild.stream", "output stream in a failed state after rebuild_pe");
    return os.str();
}
template<class F> bool throws_pe(F f) { try { f(); return false; } catch(const pe_exception&) { return true; } }

// A plain image to host one directory: sections of the given virtual sizes, generated contents
const u64 addressable = 0xffe00000ull; // limit with which VAs of the image fit their size
// high: sections may be moved up to these highest addresses (sections below it, aligned); only for images which are read
inline Img host_img(Gen& g, unsigned nsecs, u32 pages, int bits = -1, bool odd = true, u64 high = 0)
{
    Img m; m.p64 = bits < 0 ? g.flip() : bits != 0; if(m.p64) { m.machine = 0x8664; m.base = 0x140000000ull; }
    if(g.chance(1, 3)) m.base = m.p64 ? (g.u64any() & 0x7fffffff0000ull) : (u32)(g.u32any() & 0x7fff0000u);
    if(g.chance(1, 4)) { m.falign = g.pick({0x400u, 0x1000u}); }
    if(g.chance(1, 8)) { m.salign = 0x2000; }
    m.secs.resize(nsecs);
    m.size_headers = (u32)up(m.table_end() + (g.chance(1, 4) ? g.below(0x800) : 0), m.falign);
    u32 va = (u32)up(m.size_headers, m.salign), ptr = m.size_headers;
    for(unsigned i = 0; i < nsecs; ++i)
    {
        Sec& s = m.secs[i]; s.name = Str(".s") + std::to_string(i); s.va = va; s.vsize = pages * 0x1000; s.rawsize = s.vsize; s.rawptr = ptr; if(odd && g.chance(1, 6)) { s.rawsize -= (u32)g.range(1, m.falign - 1); g.label("host section of unaligned size"); } s.data = Str(s.rawsize, 0);
        va += (u32)up(s.vsize, m.salign); ptr += (u32)up(s.rawsize, m.falign);
    }
    if(high == addressable && !m.p64) high -= m.base;
    if(high && g.chance(1, 8)) { u64 end = down(g.flip() ? high : 0x80000000ull, m.salign); if(end > high) end = down(high, m.salign); u32 by = (u32)(end - (g.flip() ? 0 : m.salign) - va); for(Sec& s : m.secs) s.va += by; va += by; g.label("sections at high addresses"); }
    m.size_image = va;
    g.label(m.p64 ? "PE32+" : "PE32");
    return m;
}

// Places directory structures at generated, non-overlapping addresses of a host image
struct Placer
{
    Gen& g; Img& m; std::vector<std::pair<u64, u64>> free_; // per section: [lo, hi)
    Sec hdr; std::pair<u64, u64> hfree; bool headers;        // the headers behind the section table, where structures may lie as well
    Placer(Gen& gen, Img& img, bool noise = true, bool in_headers = false) : g(gen), m(img), hfree(0, 0), headers(false)
    {
        if(in_headers && g.chance(1, 3)) { headers = true; hdr.data = Str(m.size_headers, 0); hfree = std::make_pair((u64)m.table_end(), (u64)m.size_headers); m.header_extra = Str(m.size_headers - m.table_end(), 0); }
        for(Sec& s : m.secs) { if(noise && g.flip()) { Str b = g.bytes(std::min<size_t>(s.data.size(), 256)); for(size_t i = 0; i < s.data.size(); ++i) s.data[i] = (char)(b[i % b.size()] ? b[i % b.size()] : 'Z'); } free_.push_back(std::make_pair((u64)s.va, (u64)s.va + s.data.size())); }
    }
    u32 alloc(u64 size, u64 align = 1, int sec = -1)
    {
        if(headers && sec == -1 && g.chance(1, 3))
        {
            bool tail = g.chance(1, 4); u64 a = tail && hfree.second >= size ? down(hfree.second - size, align) : up(hfree.first, align);
            if(a >= hfree.first && a + size <= hfree.second) { (tail ? hfree.second : hfree.first) = tail ? a : a + size; if(size) g.label("a part in the headers"); return (u32)a; }
        }
        for(int tries = 0; tries < 6; ++tries)
        {
            size_t i = sec >= 0 ? (size_t)sec : (size_t)g.below(m.secs.size()); auto& f = free_[i]; bool tail = g.chance(1, 8);
            if(tail) { if(f.second < f.first + size + align) continue; u64 a = down(f.second - size, align); f.second = a; return (u32)a; }
            u64 gap = g.chance(1, 2) ? 0 : g.below(24); u64 a = up(f.first + gap, align); if(a + size > f.second) { a = up(f.first, align); if(a + size > f.second) continue; } f.first = a + size; return (u32)a;
        }
        for(auto& f : free_) { if(sec >= 0 && &f != &free_[sec]) continue; u64 a = up(f.first, align); if(a + size <= f.second) { f.first = a + size; return (u32)a; } }
        g.discard();
    }
    // the end of what can be read from this address on
    u64 end_at(u64 rva) { Sec& s = sec_at(rva); return &s == &hdr ? hdr.data.size() : s.va + up(s.vsize, m.salign); }
    Sec& sec_at(u64 rva) { if(headers && rva < hdr.data.size()) return hdr; for(Sec& s : m.secs) if(rva >= s.va && rva < s.va + s.data.size()) return s; throw std::logic_error("placer"); }
    void put(u32 rva, const Str& b) { if(b.empty()) return; Sec& s = sec_at(rva); if(rva - s.va + b.size() > s.data.size()) throw std::logic_error("placer overflow"); s.data.replace(rva - s.va, b.size(), b); if(&s == &hdr) { if(rva < m.table_end()) throw std::logic_error("placer headers"); m.header_extra = hdr.data.substr(m.table_end()); } }
    u32 place(const Str& b, u64 align = 1, int sec = -1) { u32 a = alloc(b.size(), align, sec); put(a, b); return a; }
    // a text without a terminator which runs to the end of the last section
    bool open_text(u32& at)
    {
        Sec& s = m.secs.back(); u64 e = up(s.va + s.vsize, m.salign); u32 n = (u32)g.range(1, 8); auto& f = free_.back();
        if(e != s.va + s.data.size() || f.second != e || f.first + n > e) return false;
        f.second -= n; at = (u32)(e - n); put(at, Str(n, 'u')); return true;
    }
    // an address from which less than these bytes are left in the last section
    u32 short_of(u64 size) { Sec& s = m.secs.back(); return (u32)(up(s.va + s.vsize, m.salign) - g.range(1, size - 1)); }
    u32 placez(const Str& s, u64 align = 1, int sec = -1) { return place(s + Str(1, 0), align, sec); }
    // drop trailing zero bytes of sections from the file: the loader's view stays the same
    void trim()
    {
        u32 ptr = m.size_headers;
        for(Sec& s : m.secs)
        {
            if(g.chance(1, 3)) { size_t n = s.data.find_last_not_of('\0'); n = n == Str::npos ? 0 : n + 1; n = (size_t)(g.flip() ? n : g.range(n, s.data.size())); s.data.resize(n); s.rawsize = (u32)n; if(!n) s.rawptr = 0; }
            if(s.rawsize) { s.rawptr = ptr; ptr += (u32)up(s.rawsize, m.falign); }
        }
    }
};
template<class T> Str le(T v) { Str r; for(size_t i = 0; i < sizeof(T); ++i) { r += (char)(u8)v; v = (T)(v >> (sizeof(T) > 1 ? 8 : 0)); } return r; }
inline Str leptr(u64 v, bool p64) { return p64 ? le<u64>(v) : le<u32>((u32)v); }
// Few, now and then hundreds
// more than any 8-, 10- or 12-bit count holds, once in a while
inline bool throng(Gen& g, unsigned den = 1500) { if(!g.chance(1, den)) return false; g.label("thousands"); return true; }
inline size_t crowd(Gen& g, size_t few, size_t most = 600, unsigned den = 200) { if(!g.chance(1, den)) return (size_t)g.small(few); g.label("a crowd"); return (size_t)g.range(few + 1, most); }
// everything of an image that a refused request must leave alone
inline Str whole(const pe_base& pe) { Str r(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()); for(auto& s : pe.get_image_sections()) { r.append((const char*)&s.get_raw_header(), 40); r += s.get_raw_data(); } return r; }
inline void tree_text(const resource_directory& d, Str& o)
{
    o += "{" + std::to_string(d.get_timestamp()); for(auto& e : d.get_entry_list()) { o += ' '; if(e.is_named()) { for(wchar_t c : e.get_name()) o += std::to_string((unsigned)c) + '.'; } else o += '#' + std::to_string(e.get_id()); if(e.includes_data()) o += '=' + std::to_string(e.get_data_entry().get_codepage()) + ':' + e.get_data_entry().get_data(); else tree_text(e.get_resource_directory(), o); } o += '}';
}
inline Str tree_text(const resource_directory& d) { Str o; tree_text(d, o); return o; }
// A name as it may appear in import and export tables
inline Str sym_name(Gen& g, size_t max = 40)
{
    if(g.chance(1, 20)) { Str r = g.bytes((size_t)g.range(1, max)); for(char& c : r) if(!c) c = '?'; return r; }
    if(g.chance(1, 100)) return Str((size_t)(max > 12 && g.chance(1, 60) ? g.range(0x10000, 0x12000) : g.range(200, 1200)), 'q') + g.name(1, 4);
    return g.name(1, max);
}

// The section a directory is rebuilt into, with a snapshot to tell what else was touched
// Where in its section a directory is to be built
inline u32 any_offset(Gen& g, u32 most = 0x1200) { if(g.chance(1, 150)) { g.label("an offset beyond 64 KB"); return (u32)g.range(0xfff0, 0x14000); } return g.flip() ? 0 : (u32)g.edge(0, most); }
// An offset, sometimes such that what needs so many bytes just fits into a section or just doesn't
inline u32 fit_offset(Gen& g, u32 off, u64 room, u64 need, bool last) { if(last && g.chance(1, 4)) { off = (u32)((0x2000 - need % 0x1000) % 0x1000 + (g.flip() ? 0 : g.below(9))); g.label("ends at the end of a page"); return off; } if(last || !g.chance(1, 3)) return off; u64 to = room + g.below(17); if(to < need + 8) return off; g.label("just (not) enough room"); return (u32)(to - need - 8); }
struct Host
{
    int mode; size_t idx; section loose; section* s; bool last, save, strip; u32 off; u64 room; std::vector<Str> before; // mode 0: new section, 1: existing one, 2: not attached
    Host(Gen& g, Pe& pe, const char* name, u32 maxoff = 0x1200)
    {
        off = any_offset(g, maxoff); save = g.chance(3, 4); strip = g.flip(); mode = (int)g.weighted({3, 4, 1}); auto& secs = pe->get_image_sections(); idx = (size_t)g.below(secs.size());
        if(mode == 0) { section a; a.set_name(name); a.set_raw_data(g.bytes((size_t)g.range(1, 0x600))); pe->add_section(a); idx = secs.size() - 1; }
        s = &secs[idx]; if(mode == 2) { loose.set_raw_data(Str(0x10000, 0)); loose.set_virtual_address(0x1000); s = &loose; }
        last = idx + 1 == secs.size(); room = mode == 2 ? 0 : up(s->get_size_of_raw_data(), pe->get_file_alignment()); for(auto& x : secs) before.push_back(x.get_raw_data());
        if(s->empty() && mode != 2) room = 0;
    }
    bool unattached() const { return mode == 2; }
    void fit(Gen& g, u64 need) { if(mode != 2) off = fit_offset(g, off, room, need, last); }
    struct Area { size_t sec; u64 lo, hi; };
    void untouched(Pe& pe, const std::vector<Area>& areas, const char* sig) const
    {
        for(size_t i = 0; i < before.size(); ++i)
        {
            const Str& now = pe->get_image_sections()[i].get_raw_data();
            for(size_t b = 0; b < std::max(before[i].size(), now.size()); ++b)
            {
                char x = b < before[i].size() ? before[i][b] : 0, y = b < now.size() ? now[b] : 0; if(x == y) continue;
                bool in = false; for(const Area& a : areas) in |= i == a.sec && b >= a.lo && b < a.hi;
                CHECK(in, sig, "byte " << hx(b) << " of section " << i << " changed from " << hx((u8)x) << " to " << hx((u8)y) << ", outside what was to be written");
            }
        }
    }
    Str str() const { std::ostringstream o; o << "section " << idx << (last ? " (last)" : "") << (mode == 0 ? " (new)" : mode == 2 ? " (unattached)" : "") << " offset " << hx(off) << " save=" << save << " strip=" << strip; return o.str(); }
};
}
