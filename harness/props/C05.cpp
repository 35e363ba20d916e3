// C05: address translations agree with the section table and are inverses of each other.
#include "gen_pe.h"
using namespace ref;

static u64 vend(const Img& m, const Sec& s) { return s.va + up(s.vsize, m.salign); }
static int sec_of(const Img& m, u64 rva) { for(size_t i = 0; i < m.secs.size(); ++i) if(rva >= m.secs[i].va && rva < vend(m, m.secs[i])) return (int)i; return -1; }
template<class F> static bool ok(F f, const char* sig, const Str& what, bool expect)
{
    bool r = true; try { f(); } catch(const pe_exception&) { r = false; }
    CHECK(r == expect, sig, what << (r ? " succeeded, but must be refused" : " refused, but the address is valid")); return r;
}

static u32 gen_rva(Gen& g, const Img& m)
{
    switch(g.below(6))
    {
    case 0: return g.u32any();
    case 1: return (u32)g.edge(0, m.size_headers + 4);
    case 2: return (u32)g.edge(0, m.size_image + 0x1000ull > 0xffffffff ? 0xffffffffull : m.size_image + 0x1000ull);
    default:
        if(m.secs.empty()) return (u32)g.below(0x3000);
        const Sec& s = m.secs[(size_t)g.below(m.secs.size())]; u64 base = s.va, off;
        switch(g.below(4)) { case 0: off = g.edge(0, s.data.size() + 2); break; case 1: off = g.edge(0, s.vsize + 2ull); break; case 2: off = vend(m, s) - base - 2 + g.below(5); break; default: off = g.below(vend(m, s) - base); }
        return (u32)(base + off - (g.chance(1, 12) ? 1 : 0));
    }
}

static void run(Gen& g)
{
    GenOpt o; o.high = true; o.raw_gt_virtual = false; Img m = gen_img(g, o);
    for(auto& s : m.secs) if(s.rawsize && s.rawptr % m.falign) s.rawptr = (u32)down(s.rawptr, m.falign); // unaligned pointers: rounding is not documented for translations
    if(!m.secs.empty() && g.chance(1, 4))
    {   // one huge section in the image
        Sec& s = m.secs.back(); u64 max = std::min<u64>(0x80000000ull, 0xfffe0000ull - s.va); s.vsize = (u32)g.edge(std::max<u64>(0x100000, s.vsize), max); m.size_image = (u32)vend(m, s); g.label("huge section");
        if(up(s.vsize, m.salign) > 0x80000000ull) s.vsize = 0x80000000u;
    }
    if(g.chance(1, 4) && !m.p64) m.base = g.u32any();
    if(g.chance(1, 4) && m.p64) m.base = g.chance(1, 3) ? g.u32any() : g.u64any();
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0);
    Pe owned = must_load(f, m.p64, "addr.load"); pe_base& pe = *owned; const pe_base& cpe = pe; g.note(describe(m));
    // optionally save it: file offsets are then those of the new file
    if(m.secs.size() && g.chance(1, 3))
    {
        bool moved = true; try { f = rebuilt(pe); } catch(const pe_exception&) { moved = false; }
        if(moved) { g.label("after a rebuild"); Str why; Img r; CHECK(parse(f, r, why), "addr.rebuilt", why); m.size_headers = r.size_headers; for(size_t i = 0; i < m.secs.size(); ++i) { m.secs[i].rawptr = r.secs[i].rawptr; CHECK(m.secs[i].rawsize == r.secs[i].rawsize, "addr.rebuilt", "raw size"); } }
        else g.discard();
    }
    section_list& l = pe.get_image_sections();
    if(!m.secs.empty()) g.nontrivial();
    for(int k = 0; k < 24; ++k)
    {
        u32 rva = gen_rva(g, m); Str at = "rva " + hx(rva); int want = sec_of(m, rva);
        //--- sections by address
        ok([&] { CHECK(&pe.section_from_rva(rva) == &l[want < 0 ? 0 : want], "addr.section", at << ": wrong section"); CHECK(&cpe.section_from_rva(rva) == &pe.section_from_rva(rva), "addr.section.const", at << ": const overload differs"); }, "addr.section.exists", "section_from_rva " + at, want >= 0);
        ok([&] { auto p = cpe.section_and_offset_from_rva(rva); CHECK(p.second == &l[want < 0 ? 0 : want] && p.first == rva - m.secs[want < 0 ? 0 : want].va, "addr.section_and_offset", at << ": wrong pair"); }, "addr.section.exists", "section_and_offset_from_rva " + at, want >= 0);
        //--- lengths
        for(int vt = 0; vt < 2; ++vt)
        {
            section_data_type t = vt ? section_data_virtual : section_data_raw;
            u64 total = want < 0 ? 0 : vt ? up(m.secs[want].vsize, m.salign) : m.secs[want].data.size();
            ok([&] { CHECK_EQ((u64)pe.section_data_length_from_rva(rva, t), total, "addr.length.total"); }, "addr.length.exists", "section_data_length_from_rva " + at, want >= 0);
            u64 off = want < 0 ? 0 : rva - m.secs[want].va, left = total > off ? total - off : 0;
            ok([&] { CHECK_EQ((u64)pe.section_data_length_from_rva(rva, rva, t), left, "addr.length.left"); }, "addr.length.exists", "section_data_length_from_rva " + at, want >= 0);
            if(l.empty()) continue;
            size_t si = g.chance(1, 3) || want < 0 ? (size_t)g.below(l.size()) : (size_t)want;
            ok([&] { CHECK_EQ((u64)pe.section_data_length_from_rva(l[si], rva, t), left, "addr.length.section"); }, "addr.length.section.exists", "section_data_length_from_rva(section) " + at, (int)si == want);
        }
        {   // "to the end of section containing A" with another address
            u32 b = gen_rva(g, m); if(want >= 0)
            {
                const Sec& s = m.secs[want]; bool vt = g.flip(); u64 total = vt ? up(s.vsize, m.salign) : s.data.size();
                ok([&] { u64 left = b - s.va < total ? total - (b - s.va) : 0; CHECK_EQ((u64)pe.section_data_length_from_rva(rva, b, vt ? section_data_virtual : section_data_raw), left, "addr.length.other"); }, "addr.length.other.exists", "section_data_length_from_rva " + at + ", " + hx(b), b >= s.va);
            }
        }
        //--- file offsets
        bool backed = want >= 0 && rva - m.secs[want].va < m.secs[want].data.size();
        if(rva < m.size_headers) CHECK_EQ(pe.rva_to_file_offset(rva), rva, "addr.offset.headers");
        else if(backed)
        {
            u32 exp = m.secs[want].rawptr + (rva - m.secs[want].va), fo = pe.rva_to_file_offset(rva);
            CHECK(fo == exp, "addr.offset", at << ": file offset " << hx(fo) << " instead of " << hx(exp));
            CHECK(f.at(fo) == *cpe.section_data_from_rva(rva), "addr.offset.byte", at << ": byte in the file differs from the section data");
            CHECK_EQ(pe.file_offset_to_rva(fo), rva, "addr.offset.inverse");
            CHECK(&pe.section_from_file_offset(fo) == &l[want] && &cpe.section_from_file_offset(fo) == &l[want], "addr.offset.section", "file offset " << hx(fo) << ": wrong section");
        }
        else if(want < 0) ok([&] { pe.rva_to_file_offset(rva); }, "addr.offset.exists", "rva_to_file_offset " + at, false);
        {
            u32 fo; if(g.chance(1, 3) || l.empty()) fo = (u32)(g.flip() ? g.edge(0, f.size() + 4) : g.u32any()); else { const Sec& s = m.secs[(size_t)g.below(l.size())]; fo = s.rawptr + (u32)g.edge(0, s.rawsize + 1ull) - (g.chance(1, 4) ? 1 : 0); }
            int in = -1; for(size_t i = 0; i < m.secs.size(); ++i) if(m.secs[i].rawsize && fo >= m.secs[i].rawptr && fo < (u64)m.secs[i].rawptr + m.secs[i].rawsize) in = (int)i;
            Str fs = "file offset " + hx(fo);
            ok([&] { CHECK(&pe.section_from_file_offset(fo) == &l[in < 0 ? 0 : in], "addr.offset.section", fs << ": wrong section"); }, "addr.offset.section.exists", "section_from_" + fs, in >= 0);
            if(fo < m.size_headers) { if(in < 0) CHECK_EQ(pe.file_offset_to_rva(fo), fo, "addr.offset.headers"); }
            else ok([&] { u32 r = pe.file_offset_to_rva(fo), exp = m.secs[in].va + fo - m.secs[in].rawptr; CHECK(r == exp, "addr.offset.rva", fs << " maps to rva " << hx(r) << " instead of " << hx(exp)); CHECK_EQ(pe.rva_to_file_offset(r), fo, "addr.offset.inverse2"); }, "addr.offset.exists", "file_offset_to_rva " + fs, in >= 0);
        }
        //--- virtual addresses
        {
            u64 va = m.base + rva; bool v32 = va >= m.base && va <= 0xffffffffull, fits = m.p64 || v32;
            CHECK_EQ(pe.rva_to_va_64(rva), va, "addr.va64"); u64 v64; pe.rva_to_va(rva, v64); CHECK_EQ(v64, va, "addr.va64");
            ok([&] { CHECK_EQ((u64)pe.rva_to_va_32(rva), va, "addr.va32"); u32 w; pe.rva_to_va(rva, w); CHECK_EQ((u64)w, va, "addr.va32"); }, "addr.va32.overflow", "rva_to_va_32 " + at + " with image base " + hx(m.base), v32);
            CHECK_EQ(pe.va_to_rva(va), rva, "addr.rva");
            if(v32) CHECK_EQ(pe.va_to_rva((u32)va), rva, "addr.rva32");
            if(fits || m.p64)
                ok([&] { CHECK(&pe.section_from_va(va) == &l[want < 0 ? 0 : want] && &cpe.section_from_va(va) == &pe.section_from_va(va), "addr.va.section", "va " << hx(va) << ": wrong section"); }, "addr.va.section.exists", "section_from_va of " + at, want >= 0);
            if(v32)
            {
                ok([&] { CHECK(&pe.section_from_va((u32)va) == &l[want < 0 ? 0 : want] && &cpe.section_from_va((u32)va) == &pe.section_from_va((u32)va), "addr.va.section", "va " << hx(va) << ": wrong section"); }, "addr.va.section.exists", "section_from_va of " + at, want >= 0);
                ok([&] { CHECK_EQ(pe.section_data_length_from_va((u32)va, section_data_raw), (u32)(want < 0 ? 0 : m.secs[want].data.size()), "addr.va.length"); CHECK_EQ(pe.section_data_length_from_va((u32)va, (u32)va, section_data_virtual), pe.section_data_length_from_rva(rva, rva, section_data_virtual), "addr.va.length"); }, "addr.va.section.exists", "section_data_length_from_va of " + at, want >= 0);
            }
            if(want >= 0) { CHECK_EQ((u64)pe.section_data_length_from_va(va, section_data_virtual), up(m.secs[want].vsize, m.salign), "addr.va.length"); CHECK_EQ(pe.section_data_length_from_va(l[want], va, section_data_raw), pe.section_data_length_from_rva(rva, rva), "addr.va.length"); if(v32) CHECK_EQ(pe.section_data_length_from_va(l[want], (u32)va, section_data_raw), pe.section_data_length_from_rva(rva, rva), "addr.va.length"); }
            // any 64-bit value as an address
            u64 x = g.flip() ? g.u64any() : m.base - 2 + g.below(5) + (g.flip() ? 0x100000000ull : 0); u64 d = x - m.base;
            ok([&] { CHECK_EQ((u64)pe.va_to_rva(x), d, "addr.rva.any"); }, "addr.rva.bounds", "va_to_rva " + hx(x) + " with image base " + hx(m.base), d <= 0xffffffffull);
            CHECK_EQ(pe.va_to_rva(x, false), (u32)d, "addr.rva.unchecked");
            u32 y = g.flip() ? g.u32any() : (u32)(m.base - 2 + g.below(5)); u64 dy = (u64)y - m.base;
            ok([&] { CHECK_EQ((u64)pe.va_to_rva(y), dy, "addr.rva32.any"); }, "addr.rva.bounds", "va_to_rva " + hx(y) + " with image base " + hx(m.base), dy <= 0xffffffffull);
        }
        //--- directories
        if(m.ndirs) { u32 d = (u32)g.below(m.ndirs); pe.set_directory_rva(d, rva); ok([&] { CHECK(&pe.section_from_directory(d) == &l[want < 0 ? 0 : want] && &cpe.section_from_directory(d) == &pe.section_from_directory(d), "addr.dir", at << ": wrong section for a directory"); }, "addr.dir.exists", "section_from_directory " + at, want >= 0); }
        if(want >= 0) { u32 off = (u32)g.below(vend(m, m.secs[want]) - m.secs[want].va); CHECK_EQ(pe_base::rva_from_section_offset(l[want], off), m.secs[want].va + off, "addr.section_offset"); }
    }
    ok([&] { pe.section_from_directory(m.ndirs); }, "addr.dir.missing", "section_from_directory of a missing directory", false);
}
const pbt::PropInfo pbt::prop_info = {"C05", "Generated images (incl. sections of up to 2 GB and any image base), 24 boundary-biased addresses each, every translation compared with the section table. Non-trivial: the image has sections.", run, 60000, 2000000, 0, 0, 20};
