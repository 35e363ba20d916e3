// Reference model of the PE/PE+ container, written from the published format and
// independent of the library: an image description, a writer and a parser.
#pragma once
#include "engine.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>

namespace ref
{
using namespace pbt;
typedef std::string Str;

inline void need(Str& b, size_t n) { if(b.size() < n) b.resize(n, 0); }
inline void p8(Str& b, size_t o, u8 v) { need(b, o + 1); b[o] = (char)v; }
inline void p16(Str& b, size_t o, u16 v) { need(b, o + 2); b[o] = (char)v; b[o + 1] = (char)(v >> 8); }
inline void p32(Str& b, size_t o, u32 v) { need(b, o + 4); for(int i = 0; i < 4; ++i) b[o + i] = (char)(v >> (8 * i)); }
inline void p64(Str& b, size_t o, u64 v) { need(b, o + 8); for(int i = 0; i < 8; ++i) b[o + i] = (char)(v >> (8 * i)); }
inline void pstr(Str& b, size_t o, const Str& s) { need(b, o + s.size()); b.replace(o, s.size(), s); }
inline void pz(Str& b, size_t o, const Str& s) { need(b, o + s.size() + 1); b.replace(o, s.size(), s); b[o + s.size()] = 0; }
struct OutOfRange {};
inline u8 g8(const Str& b, size_t o) { if(o >= b.size()) throw OutOfRange(); return (u8)b[o]; }
inline u16 g16(const Str& b, size_t o) { return (u16)(g8(b, o) | g8(b, o + 1) << 8); }
inline u32 g32(const Str& b, size_t o) { return (u32)g16(b, o) | (u32)g16(b, o + 2) << 16; }
inline u64 g64(const Str& b, size_t o) { return (u64)g32(b, o) | (u64)g32(b, o + 4) << 32; }
inline Str gz(const Str& b, size_t o) { Str r; for(;; ++o) { u8 c = g8(b, o); if(!c) return r; r += (char)c; } }
inline u64 up(u64 x, u64 a) { return a ? (x + a - 1) / a * a : x; }
inline u64 down(u64 x, u64 a) { return a ? x / a * a : x; }

struct Sec
{
    Str name;                       // up to 8 bytes, stored raw
    u32 vsize = 0, va = 0, rawsize = 0, rawptr = 0, chars = 0xE0000020;
    u32 relocptr = 0, lineptr = 0; u16 nreloc = 0, nline = 0;
    Str data;                       // contents, data.size() == rawsize in a generated image
};

struct Img
{
    bool p64 = false;
    u16 dos[32] = {};               // the 64-byte DOS header as words; e_lfanew is kept apart
    u32 lfanew = 64;
    Str stub;                       // bytes from offset 64 to e_lfanew
    u16 machine = 0x14c, nsec_override = 0xffff; u32 timestamp = 0, symptr = 0, nsyms = 0; u16 chars = 0x102;
    u32 opt_extra = 0;              // slack between the optional header and the section table
    u8 majl = 0, minl = 0; u32 scode = 0, sidata = 0, sudata = 0, ep = 0, bcode = 0, bdata = 0;
    u64 base = 0x400000; u32 salign = 0x1000, falign = 0x200;
    u16 majos = 5, minos = 1, majimg = 0, minimg = 0, majsub = 5, minsub = 1; u32 win32ver = 0, size_image = 0, size_headers = 0x400, checksum = 0;
    u16 subsystem = 2, dllchars = 0; u64 sres = 0x100000, scom = 0x1000, hres = 0x100000, hcom = 0x1000; u32 loaderflags = 0;
    u32 ndirs = 16;
    std::pair<u32, u32> dirs[16];   // rva, size
    std::vector<Sec> secs;
    Str header_extra;               // bytes after the section table (bound imports, padding)
    Str overlay;

    u32 opt_size() const { return (p64 ? 112u : 96u) + 8 * std::min<u32>(ndirs, 16); }
    u32 table_off() const { return lfanew + 24 + opt_size() + opt_extra; }
    u32 table_end() const { return table_off() + (u32)secs.size() * 40; }
};

inline Str write_opt(const Img& m)
{
    Str b; size_t o = 0;
    p16(b, 0, m.p64 ? 0x20b : 0x10b); p8(b, 2, m.majl); p8(b, 3, m.minl); p32(b, 4, m.scode); p32(b, 8, m.sidata); p32(b, 12, m.sudata);
    p32(b, 16, m.ep); p32(b, 20, m.bcode);
    if(m.p64) p64(b, 24, m.base); else { p32(b, 24, m.bdata); p32(b, 28, (u32)m.base); }
    p32(b, 32, m.salign); p32(b, 36, m.falign); p16(b, 40, m.majos); p16(b, 42, m.minos); p16(b, 44, m.majimg); p16(b, 46, m.minimg);
    p16(b, 48, m.majsub); p16(b, 50, m.minsub); p32(b, 52, m.win32ver); p32(b, 56, m.size_image); p32(b, 60, m.size_headers); p32(b, 64, m.checksum);
    p16(b, 68, m.subsystem); p16(b, 70, m.dllchars);
    if(m.p64) { p64(b, 72, m.sres); p64(b, 80, m.scom); p64(b, 88, m.hres); p64(b, 96, m.hcom); o = 104; }
    else { p32(b, 72, (u32)m.sres); p32(b, 76, (u32)m.scom); p32(b, 80, (u32)m.hres); p32(b, 84, (u32)m.hcom); o = 88; }
    p32(b, o, m.loaderflags); p32(b, o + 4, m.ndirs); o += 8;
    for(u32 i = 0; i < std::min<u32>(m.ndirs, 16); ++i) { p32(b, o + 8 * i, m.dirs[i].first); p32(b, o + 8 * i + 4, m.dirs[i].second); }
    return b;
}
// Serialises the image the way it lies in a file (or, mem = true, the way it lies in memory)
inline Str write(const Img& m, bool mem = false)
{
    Str b(64, 0);
    for(int i = 0; i < 30; ++i) p16(b, i * 2, m.dos[i]);
    p16(b, 0, 0x5a4d);
    pstr(b, 64, m.stub);
    size_t o = m.lfanew;
    Str nt; p32(nt, 0, 0x4550); p16(nt, 4, m.machine); p16(nt, 6, m.nsec_override != 0xffff ? m.nsec_override : (u16)m.secs.size()); p32(nt, 8, m.timestamp); p32(nt, 12, m.symptr); p32(nt, 16, m.nsyms);
    p16(nt, 20, (u16)(m.opt_size() + m.opt_extra)); p16(nt, 22, m.chars);
    nt += write_opt(m); nt.resize(nt.size() + m.opt_extra, 0);
    pstr(b, o, nt); o += nt.size();
    for(const Sec& s : m.secs)
    {
        Str h(40, 0); Str n = s.name.substr(0, 8); pstr(h, 0, n); p32(h, 8, s.vsize); p32(h, 12, s.va); p32(h, 16, s.rawsize); p32(h, 20, s.rawptr); p32(h, 24, s.relocptr); p32(h, 28, s.lineptr);
        p16(h, 32, s.nreloc); p16(h, 34, s.nline); p32(h, 36, s.chars); pstr(b, o, h); o += 40;
    }
    if(m.lfanew >= 64) p32(b, 0x3c, m.lfanew);
    pstr(b, o, m.header_extra);
    for(const Sec& s : m.secs) if(s.rawsize) pstr(b, (size_t)(mem ? down(s.va, m.salign) : down(s.rawptr, m.falign)), s.data);
    if(!m.secs.empty() || true) b += m.overlay;
    return b;
}

// Parses a file; returns false with a reason if it is not a readable container
inline bool parse(const Str& f, Img& m, Str& why)
{
    try
    {
        if(g16(f, 0) != 0x5a4d) { why = "no MZ"; return false; }
        for(int i = 0; i < 32; ++i) m.dos[i] = g16(f, i * 2);
        m.lfanew = g32(f, 0x3c);
        if(m.lfanew > f.size()) { why = "e_lfanew outside the file"; return false; }
        if(m.lfanew > 64) m.stub = f.substr(64, m.lfanew - 64);
        size_t n = m.lfanew;
        if(g32(f, n) != 0x4550) { why = "no PE signature"; return false; }
        m.machine = g16(f, n + 4); u16 ns = g16(f, n + 6); m.timestamp = g32(f, n + 8); m.symptr = g32(f, n + 12); m.nsyms = g32(f, n + 16); u16 so = g16(f, n + 20); m.chars = g16(f, n + 22);
        size_t p = n + 24; u16 magic = g16(f, p);
        if(magic != 0x10b && magic != 0x20b) { why = "bad magic"; return false; }
        m.p64 = magic == 0x20b;
        m.majl = g8(f, p + 2); m.minl = g8(f, p + 3); m.scode = g32(f, p + 4); m.sidata = g32(f, p + 8); m.sudata = g32(f, p + 12); m.ep = g32(f, p + 16); m.bcode = g32(f, p + 20);
        if(m.p64) m.base = g64(f, p + 24); else { m.bdata = g32(f, p + 24); m.base = g32(f, p + 28); }
        m.salign = g32(f, p + 32); m.falign = g32(f, p + 36); m.majos = g16(f, p + 40); m.minos = g16(f, p + 42); m.majimg = g16(f, p + 44); m.minimg = g16(f, p + 46);
        m.majsub = g16(f, p + 48); m.minsub = g16(f, p + 50); m.win32ver = g32(f, p + 52); m.size_image = g32(f, p + 56); m.size_headers = g32(f, p + 60); m.checksum = g32(f, p + 64);
        m.subsystem = g16(f, p + 68); m.dllchars = g16(f, p + 70); size_t o;
        if(m.p64) { m.sres = g64(f, p + 72); m.scom = g64(f, p + 80); m.hres = g64(f, p + 88); m.hcom = g64(f, p + 96); o = p + 104; }
        else { m.sres = g32(f, p + 72); m.scom = g32(f, p + 76); m.hres = g32(f, p + 80); m.hcom = g32(f, p + 84); o = p + 88; }
        m.loaderflags = g32(f, o); m.ndirs = g32(f, o + 4); o += 8;
        if(m.ndirs > 16) { why = "more than 16 directories"; return false; }
        for(u32 i = 0; i < m.ndirs; ++i) m.dirs[i] = std::make_pair(g32(f, o + 8 * i), g32(f, o + 8 * i + 4));
        if(so < m.opt_size()) { why = "SizeOfOptionalHeader too small"; return false; }
        m.opt_extra = so - m.opt_size();
        o = n + 24 + so;
        for(u16 i = 0; i < ns; ++i, o += 40)
        {
            Sec s; if(o + 40 > f.size()) { why = "section table outside the file"; return false; }
            s.name = f.substr(o, 8); while(!s.name.empty() && !s.name.back()) s.name.pop_back();
            s.vsize = g32(f, o + 8); s.va = g32(f, o + 12); s.rawsize = g32(f, o + 16); s.rawptr = g32(f, o + 20); s.relocptr = g32(f, o + 24); s.lineptr = g32(f, o + 28); s.nreloc = g16(f, o + 32); s.nline = g16(f, o + 34); s.chars = g32(f, o + 36);
            if(s.rawsize) { u64 q = down(s.rawptr, m.falign ? m.falign : 1); if(q + s.rawsize > f.size()) { why = "section data outside the file"; return false; } s.data = f.substr((size_t)q, s.rawsize); }
            m.secs.push_back(s);
        }
        return true;
    }
    catch(const OutOfRange&) { why = "truncated"; return false; }
}

// Layout rules every well-formed image on disk obeys
inline bool well_formed(const Img& m, size_t filesize, Str& why)
{
    auto pow2 = [](u64 v) { return v && !(v & (v - 1)); };
    if(!pow2(m.salign) || !pow2(m.falign)) { why = "alignment not a power of two"; return false; }
    if(m.falign > m.salign || (m.falign < 512 && m.falign != m.salign)) { why = "bad file alignment"; return false; }
    u64 prev_end = 0; u64 prev_raw = 0;
    for(size_t i = 0; i < m.secs.size(); ++i)
    {
        const Sec& s = m.secs[i];
        if(s.va % m.salign) { why = "section " + std::to_string(i) + " VA not aligned"; return false; }
        if(i == 0) { if(s.va < m.size_headers) { why = "first section overlaps the headers"; return false; } }
        else if(s.va != prev_end) { why = "section " + std::to_string(i) + " VA is not where the previous section ends"; return false; }
        u64 vs = s.vsize ? s.vsize : s.rawsize;
        if(!vs) { why = "empty section"; return false; }
        prev_end = s.va + up(vs, m.salign);
        if(s.rawsize)
        {
            if(s.rawptr % m.falign) { why = "section " + std::to_string(i) + " raw pointer not aligned"; return false; }
            if(s.rawptr < m.table_end()) { why = "raw data overlaps the headers"; return false; }
            if(s.rawptr < prev_raw) { why = "section " + std::to_string(i) + " raw data overlaps the previous section"; return false; }
            if((u64)s.rawptr + s.rawsize > filesize) { why = "section data outside the file"; return false; }
            prev_raw = (u64)s.rawptr + s.rawsize;
            if(up(s.rawsize, m.falign) > up(vs, m.salign)) { why = "raw data longer than the virtual size"; return false; }
        }
    }
    if(m.secs.size() && m.size_image != prev_end) { why = "SizeOfImage " + hx(m.size_image) + " is not the end of the last section " + hx(prev_end); return false; }
    if(m.table_end() > m.size_headers) { why = "SizeOfHeaders does not cover the section table"; return false; }
    return true;
}

// memory view: contents of the image at an RVA (headers excluded)
struct Mem
{
    const Img& m; explicit Mem(const Img& i) : m(i) {}
    const Sec* sec(u32 rva) const { for(const Sec& s : m.secs) { u64 e = s.va + up(s.vsize ? s.vsize : s.rawsize, m.salign); if(rva >= s.va && rva < e) return &s; } return nullptr; }
    bool byte(u32 rva, u8& v) const { const Sec* s = sec(rva); if(!s) return false; u32 o = rva - s->va; v = o < s->data.size() ? (u8)s->data[o] : 0; return true; }
    u8 r8(u32 rva) const { u8 v; if(!byte(rva, v)) throw OutOfRange(); return v; }
    u16 r16(u32 a) const { return (u16)(r8(a) | r8(a + 1) << 8); }
    u32 r32(u32 a) const { return (u32)r16(a) | (u32)r16(a + 2) << 16; }
    u64 r64(u32 a) const { return (u64)r32(a) | (u64)r32(a + 4) << 32; }
    u64 rptr(u32 a) const { return m.p64 ? r64(a) : r32(a); }
    Str z(u32 a) const { Str r; for(;; ++a) { u8 c = r8(a); if(!c) return r; r += (char)c; } }
    Str blob(u32 a, u32 n) const { Str r; for(u32 i = 0; i < n; ++i) r += (char)r8(a + i); return r; }
};
}
