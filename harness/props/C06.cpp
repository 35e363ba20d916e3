// C06: typed and raw access to section data is bounds-exact, and the raw and virtual views of a section stay coherent.
#include "gen_pe.h"
using namespace ref;

#pragma pack(push, 1)
struct Rec3 { u8 a; u16 b; }; struct Rec20 { u32 a[5]; }; struct Rec200 { u8 a[200]; };
#pragma pack(pop)
struct MS { Str raw; u32 va; u64 asize; };            // model of one section
struct St { const Img* m; std::vector<MS> s; Str headers; };

static int sec_of(const St& st, u64 rva) { for(size_t i = 0; i < st.s.size(); ++i) if(rva >= st.s[i].va && rva < st.s[i].va + st.s[i].asize) return (int)i; return -1; }
static Str view(const MS& s, bool virt) { Str r = s.raw; if(virt && r.size() < s.asize) r.resize((size_t)s.asize, 0); return r; }
template<class T> static Str as_bytes(const T& t) { return Str((const char*)&t, sizeof t); }

template<class T> static void typed(Gen& g, pe_base& pe, const St& st, u32 rva, bool virt, bool hdrs, int bysec, bool by_va)
{
    section_data_type t = virt ? section_data_virtual : section_data_raw; Str want; bool have = false; int i = sec_of(st, rva);
    if(bysec < 0 && hdrs && (u64)rva + sizeof(T) <= st.headers.size() && (u64)rva + sizeof(T) <= 0xffffffffull) { want = st.headers.substr(rva, sizeof(T)); have = true; }
    else if(i >= 0 && (bysec < 0 || bysec == i))
    {
        Str v = view(st.s[i], virt); u64 off = rva - st.s[i].va;
        if(off + sizeof(T) <= v.size()) { want = v.substr((size_t)off, sizeof(T)); have = true; }
    }
    std::ostringstream what; what << "reading " << sizeof(T) << " bytes at rva " << hx(rva) << (virt ? " virtual" : " raw") << (hdrs ? " with headers" : "") << (bysec >= 0 ? " from section " + std::to_string(bysec) : Str()) << (by_va ? " by va" : "");
    Str got; bool r = true;
    u64 va = st.m->base + rva; bool narrow = !st.m->p64 && va <= 0xffffffffull && g.flip();
    try
    {
        T x;
        if(by_va) x = bysec >= 0 ? (narrow ? pe.section_data_from_va<T>(pe.get_image_sections()[bysec], (u32)va, t) : pe.section_data_from_va<T>(pe.get_image_sections()[bysec], va, t))
                                 : (narrow ? pe.section_data_from_va<T>((u32)va, t, hdrs) : pe.section_data_from_va<T>(va, t, hdrs));
        else x = bysec >= 0 ? pe.section_data_from_rva<T>(pe.get_image_sections()[bysec], rva, t) : pe.section_data_from_rva<T>(rva, t, hdrs);
        got = as_bytes(x);
    }
    catch(const pe_exception&) { r = false; }
    CHECK(r == have, "access.bounds", what.str() << (r ? " succeeded, but the data is not all there" : " refused, but the data is there"));
    if(r) CHECK(got == want, "access.bytes", what.str() << " returned " << hex(got) << " instead of " << hex(want));
}

static u32 gen_rva(Gen& g, const St& st, unsigned sz)
{
    if(st.s.empty() || g.chance(1, 10)) return g.chance(1, 2) ? (u32)g.edge(0, st.headers.size() + 8) : g.u32any();
    const MS& s = st.s[(size_t)g.below(st.s.size())]; u64 b;
    switch(g.below(5))
    {
    case 0: b = g.below(std::max<u64>(1, s.raw.size())); break;
    case 1: b = s.raw.size() + 2 - std::min<u64>(s.raw.size() + 2, g.below(sz + 4)); break;
    case 2: b = s.asize + 2 - std::min<u64>(s.asize + 2, g.below(sz + 4)); break;
    case 3: return st.headers.size() ? (u32)(st.headers.size() + 2 - std::min<u64>(st.headers.size() + 2, g.below(sz + 4))) : 0;
    default: b = g.below(s.asize); break;
    }
    return (u32)(s.va + b);
}

static void whole(pe_base& pe, const St& st, const char* after)
{
    const section_list& l = pe.get_image_sections();
    for(size_t i = 0; i < st.s.size(); ++i)
    {
        CHECK(l[i].get_raw_data() == st.s[i].raw, "access.coherent", "after " << after << ": raw data of section " << i << " is not what was written (" << l[i].get_raw_data().size() << " bytes, expected " << st.s[i].raw.size() << ")");
        CHECK(l[i].empty() == st.s[i].raw.empty(), "access.empty", "after " << after << ": empty() of section " << i);
    }
}

static void run(Gen& g)
{
    GenOpt o; o.high = true; o.max_vpages = 2; o.random_dirs = false; Img m = gen_img(g, o); g.note(describe(m)); if(m.ndirs > 6) m.dirs[6] = {0, 0};
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0);
    Pe pe = must_load(f, m.p64, "access.load");
    St st; st.m = &m;
    u64 hl = std::min<u64>(m.size_headers, f.size()); for(auto& s : m.secs) if(s.rawsize) { hl = std::min<u64>(m.size_headers, s.rawptr); break; }
    st.headers = f.substr(0, hl);
    for(auto& s : m.secs) { MS x; x.va = s.va; x.asize = up(s.vsize, m.salign); x.raw = s.data; if(up(s.rawsize, m.falign) > x.asize) x.raw.resize(s.vsize); st.s.push_back(x); }
    struct Snap { Pe pe; St st; }; std::vector<Snap> snaps;
    unsigned n = (unsigned)g.range(8, 40);
    for(unsigned k = 0; k < n; ++k)
    {
        if(st.s.empty() && k > 4) break;
        unsigned op = st.s.empty() ? 0 : g.weighted({8, 2, 2, 2, 2, 1, 1, 2, 2, 3, 1}); std::ostringstream d; d << "#" << k << " ";
        switch(op)
        {
        case 0:
        {
            unsigned w = (unsigned)g.below(7); static const unsigned sz[] = {1, 2, 4, 8, 3, 20, 200}; u32 rva = gen_rva(g, st, sz[w]); bool v = g.flip(), h = g.flip(); int bs = !st.s.empty() && g.chance(1, 3) ? (sec_of(st, rva) >= 0 && g.chance(3, 4) ? sec_of(st, rva) : (int)g.below(st.s.size())) : -1; bool va = g.chance(1, 3);
            if(va && !m.p64 && m.base + rva > 0xffffffffull) va = false;
            if(va && m.p64 && m.base + rva < m.base) va = false;
            switch(w) { case 0: typed<u8>(g, *pe, st, rva, v, h, bs, va); break; case 1: typed<u16>(g, *pe, st, rva, v, h, bs, va); break; case 2: typed<u32>(g, *pe, st, rva, v, h, bs, va); break; case 3: typed<u64>(g, *pe, st, rva, v, h, bs, va); break;
                case 4: typed<Rec3>(g, *pe, st, rva, v, h, bs, va); break; case 5: typed<Rec20>(g, *pe, st, rva, v, h, bs, va); break; default: typed<Rec200>(g, *pe, st, rva, v, h, bs, va); }
            if(!st.s.empty()) g.nontrivial();
            break;
        }
        case 1: // virtual view
        {
            size_t i = (size_t)g.below(st.s.size()); section& s = pe->get_image_sections()[i]; Str w = view(st.s[i], true);
            const Str& r = g.flip() ? static_cast<const section&>(s).get_virtual_data(m.salign) : s.get_virtual_data(m.salign);
            CHECK(r == w, "access.virtual", "virtual view of section " << i << " is not its raw data padded with zeros (" << r.size() << " bytes, expected " << w.size() << ")");
            CHECK(s.empty() == st.s[i].raw.empty(), "access.empty", "empty() of mapped section " << i); d << "map " << i; break;
        }
        case 2: // write through the virtual view: kept inside raw data
        {
            size_t i = (size_t)g.below(st.s.size()); MS& x = st.s[i]; if(x.raw.empty()) break; section& s = pe->get_image_sections()[i]; u32 off = (u32)g.edge(0, x.raw.size() - 1); u8 b = (u8)g.below(256);
            d << "virtual write " << i << "+" << hx(off); s.get_virtual_data(m.salign)[off] = (char)b; x.raw[off] = (char)b; break;
        }
        case 3: // write through pointers
        {
            size_t i = (size_t)g.below(st.s.size()); MS& x = st.s[i]; section& s = pe->get_image_sections()[i]; u32 rva = x.va + (u32)g.edge(0, std::max<u64>(x.raw.size(), 1) - 1); d << "pointer write " << hx(rva); unsigned how = (unsigned)g.below(4); char* p = 0;
            u64 va = m.base + rva; if(how >= 2 && ((!m.p64 && va > 0xffffffffull) || va < m.base)) how = 0;
            bool thr = throws_pe([&] { p = how == 0 ? pe->section_data_from_rva(rva) : how == 1 ? pe->section_data_from_rva(s, rva) : how == 2 ? (!m.p64 && g.flip() ? pe->section_data_from_va((u32)va) : pe->section_data_from_va(va)) : (!m.p64 && g.flip() ? pe->section_data_from_va(s, (u32)va) : pe->section_data_from_va(s, va)); });
            CHECK(thr == x.raw.empty(), "access.pointer", d.str() << (thr ? " refused" : " accepted for a section without raw data"));
            if(!thr) { *p = (char)g.below(256); x.raw[rva - x.va] = *p; CHECK(s.get_raw_data()[rva - x.va] == *p, "access.pointer", "write did not reach the raw data"); }
            break;
        }
        case 4: // read through pointers
        {
            size_t i = (size_t)g.below(st.s.size()); MS& x = st.s[i]; bool v = g.flip(); Str w = view(x, v); if(w.empty()) break; u32 off = (u32)g.edge(0, w.size() - 1); u32 rva = x.va + off; const pe_base& c = *pe; section_data_type t = v ? section_data_virtual : section_data_raw;
            d << "pointer read " << hx(rva); u64 va = m.base + rva; bool okva = va >= m.base && (m.p64 || va <= 0xffffffffull);
            CHECK(*c.section_data_from_rva(rva, t) == w[off], "access.cpointer", d.str()); CHECK(*c.section_data_from_rva(c.get_image_sections()[i], rva, t) == w[off], "access.cpointer", d.str());
            if(okva) { CHECK(*c.section_data_from_va(va, t) == w[off], "access.cpointer", d.str()); CHECK(*c.section_data_from_va(c.get_image_sections()[i], va, t) == w[off], "access.cpointer", d.str()); if(va <= 0xffffffffull) CHECK(*c.section_data_from_va(c.get_image_sections()[i], (u32)va, t) == w[off] && *c.section_data_from_va((u32)va, t) == w[off], "access.cpointer", d.str()); }
            if(rva < st.headers.size()) CHECK(*c.section_data_from_rva(rva, t, true) == st.headers[rva], "access.cpointer", d.str()); 
            if(st.headers.size()) { u32 h = (u32)g.edge(0, st.headers.size() - 1); CHECK(*c.section_data_from_rva(h, t, true) == st.headers[h] && *pe->section_data_from_rva(h, true) == st.headers[h], "access.headers", "header byte " << hx(h)); CHECK(pe->section_data_length_from_rva(h, t, true) == st.headers.size() && pe->section_data_length_from_rva(h, h, t, true) == st.headers.size() - h, "access.headers.length", "header length at " << hx(h)); }
            break;
        }
        case 9: // pointers are given inside of sections and headers only
        {
            u32 rva = gen_rva(g, st, 4); size_t i = (size_t)g.below(st.s.size()); const MS& x = st.s[i]; const pe_base& c = *pe; section_data_type t = g.flip() ? section_data_virtual : section_data_raw; d << "pointer to rva " << hx(rva); u64 va = m.base + rva; bool okva = va >= m.base && (m.p64 || va <= 0xffffffffull); g.label("pointers at the limits");
            bool inside = rva >= x.va && rva < x.va + x.asize, any = sec_of(st, rva) >= 0, head = rva < st.headers.size();
            if(x.raw.empty() && t == section_data_raw) t = section_data_virtual;
            bool thr = throws_pe([&] { c.section_data_from_rva(c.get_image_sections()[i], rva, t); }); CHECK(thr == !inside, "access.pointer.bounds", d.str() << (thr ? " refused inside" : " given outside") << " of section " << i);
            if(okva) { thr = throws_pe([&] { c.section_data_from_va(c.get_image_sections()[i], va, t); }); CHECK(thr == !inside, "access.pointer.bounds", d.str() << " by va" << (thr ? " refused inside" : " given outside") << " of section " << i); if(va <= 0xffffffffull) CHECK(throws_pe([&] { c.section_data_from_va(c.get_image_sections()[i], (u32)va, t); }) == thr, "access.pointer.bounds", d.str() << " by 32-bit va differs for section " << i); }
            if(!inside) { section& ws = pe->get_image_sections()[i]; CHECK(throws_pe([&] { pe->section_data_from_rva(ws, rva); }) && (!okva || throws_pe([&] { pe->section_data_from_va(ws, va); })) && (!okva || va > 0xffffffffull || throws_pe([&] { pe->section_data_from_va(ws, (u32)va); })), "access.pointer.bounds", d.str() << " writable outside of section " << i); }
            for(int h = 0; h < 2; ++h) { thr = throws_pe([&] { c.section_data_from_rva(rva, section_data_virtual, h); }); CHECK(thr == !(any || (h && head)), "access.pointer.bounds", d.str() << (thr ? " refused" : " given") << (h ? " with headers" : "")); }
            u64 total = head ? st.headers.size() : any ? st.s[sec_of(st, rva)].asize : 0; u32 got = 0; thr = throws_pe([&] { got = c.section_data_length_from_rva(rva, section_data_virtual, true); }); CHECK(thr == !(any || head) && (thr || got == total), "access.length.bounds", d.str() << ": total length " << got << (thr ? " refused" : "") << ", expected " << total);
            // what is left behind a second address, which lies in the same section or behind it
            u32 in = g.flip() ? gen_rva(g, st, 4) : rva + (u32)g.edge(0, 0x3000); t = g.flip() ? section_data_virtual : section_data_raw; for(int h = 0; h < 2; ++h)
            {
                int k = sec_of(st, rva); bool hd = h && head && in < st.headers.size(); u64 lim = 0; bool ok = hd || (k >= 0 && in >= st.s[k].va); if(hd) lim = st.headers.size(); else if(k >= 0) lim = (u64)st.s[k].va + view(st.s[k], t == section_data_virtual).size(); u64 left = lim > in ? lim - in : 0;
                thr = throws_pe([&] { got = c.section_data_length_from_rva(rva, in, t, h); }); CHECK(thr == !ok && (thr || got == left), "access.length.pair", d.str() << ": length from " << hx(in) << " on is " << got << (thr ? " refused" : "") << ", expected " << left << (ok ? "" : " refused") << (h ? " with headers" : "") << (t == section_data_raw ? " raw" : ""));
            }
            break;
        }
        case 10: // a section which belongs to no image
        {
            section s; Str b = g.bytes((size_t)g.edge(0, 3000)); s.set_raw_data(b); s.set_size_of_raw_data((u32)b.size()); u32 v = (u32)g.edge(1, 0x5000); d << "detached section of " << b.size() << " bytes gets virtual size " << hx(v); g.label("detached section"); s.set_virtual_size(1); bool below = v < b.size();
            bool thr = throws_pe([&] { pe->set_section_virtual_size(s, v); }); CHECK(below || !thr, "access.detached", d.str() << " refused"); if(!thr) { CHECK_EQ(s.get_virtual_size(), v, "access.detached"); if(!below) CHECK(s.get_virtual_data(m.salign) == view(MS{b, 0, up(v, m.salign)}, true), "access.detached", d.str() << ": virtual view"); } break;
        }
        case 5: // copy, possibly while mapped
        {
            size_t i = (size_t)g.below(st.s.size()); if(g.flip()) pe->get_image_sections()[i].get_virtual_data(m.salign); d << "copy"; g.label("copies"); Snap s; s.st = st;
            if(g.chance(1, 2)) { section c(pe->get_image_sections()[i]); CHECK(c.get_raw_data() == st.s[i].raw, "access.copy", "copy of a mapped section has other raw data"); section e; e = pe->get_image_sections()[i]; CHECK(e.get_raw_data() == st.s[i].raw, "access.copy", "assigned section has other raw data"); }
            s.pe.reset(new pe_base(*pe)); if(g.flip()) std::swap(s.pe, pe); snaps.push_back(std::move(s)); break;
        }
        case 6: // replace contents, possibly while mapped
        {
            size_t i = (size_t)g.below(st.s.size()); MS& x = st.s[i]; if(g.flip()) pe->get_image_sections()[i].get_virtual_data(m.salign); Str b = g.bytes((size_t)g.edge(0, x.asize)); d << "set_raw_data " << i << " " << b.size();
            if(b.empty() && !pe->get_image_sections()[i].get_virtual_size()) break;
            pe->get_image_sections()[i].set_raw_data(b); x.raw = b; break;
        }
        case 8: // the last section is resized, possibly while mapped
        {
            size_t i = st.s.size() - 1; MS& x = st.s[i]; section& s = pe->get_image_sections()[i]; u64 lo = std::max<u64>({1, x.raw.size(), s.get_size_of_raw_data()}); if(x.va + lo + 6 * (u64)m.salign > 0xf0000000ull || x.asize > 0x400000) break;
            u32 v = (u32)g.edge(lo, lo + 4 * (u64)std::min<u32>(m.salign, 0x2000)); unsigned how = (unsigned)g.below(3); d << "resize " << i << " to " << hx(v) << " how=" << how; g.label("resized");
            if(how == 0) { pe->set_section_virtual_size(s, v); x.asize = up(v, m.salign); } else if(how == 1) { s.set_virtual_size(v); x.asize = up(v, m.salign); } else { bool grew = pe->expand_section(s, x.va, v, pe_base::expand_section_virtual); CHECK(grew == (x.asize < v), "access.expand", d.str()); if(grew) x.asize = up(v, m.salign); } break;
        }
        default: { size_t i = (size_t)g.below(st.s.size()); CHECK(static_cast<const section&>(pe->get_image_sections()[i]).get_raw_data() == st.s[i].raw, "access.coherent", "raw data of section " << i); d << "raw view " << i; break; }
        }
        g.note(d.str());
    }
    whole(*pe, st, "the history"); for(auto& s : snaps) whole(*s.pe, s.st, "editing a copy");
}
const pbt::PropInfo pbt::prop_info = {"C06", "Histories of typed reads, pointer reads and writes, view switches, copies and replacements over generated images, against a byte model of every section and the headers. Non-trivial: a typed read on an image with sections.", run, 80000, 2500000, 0, 0, 20};
