// C02: the loader reports exactly what the file says, and refuses files that break the container rules.
#include "gen_pe.h"
using namespace ref;

static void compare(pe_base& pe, const Img& m, const Str& file, bool mem)
{
    const char* S = "load.header";
    CHECK(pe.get_pe_type() == (m.p64 ? pe_type_64 : pe_type_32), S, "wrong image type reported");
    CHECK(Str((const char*)&pe.get_dos_header(), 64) == file.substr(0, 64), "load.dos", "DOS header differs from the file");
    CHECK_EQ((u32)pe.get_pe_header_start(), m.lfanew, "load.dos");
    CHECK_EQ(pe.get_stub_overlay(), m.lfanew > 64 ? file.substr(64, m.lfanew - 64) : Str(), "load.stub");
    CHECK_EQ(pe.get_pe_signature(), 0x4550u, S); CHECK_EQ(pe.get_magic(), m.p64 ? 0x20bu : 0x10bu, S);
    CHECK_EQ(pe.get_machine(), m.machine, S); CHECK_EQ(pe.get_time_date_stamp(), m.timestamp, S); CHECK_EQ(pe.get_characteristics(), m.chars, S);
    CHECK_EQ(pe.get_number_of_sections(), (u16)m.secs.size(), S); CHECK_EQ(pe.get_size_of_optional_header(), (u16)(m.opt_size() + m.opt_extra), S);
    CHECK_EQ(pe.get_ep(), m.ep, S); CHECK_EQ(pe.get_base_of_code(), m.bcode, S); CHECK_EQ(pe.get_image_base_64(), m.base, S); CHECK_EQ(pe.get_image_base_32(), (u32)m.base, S);
    u32 b32 = 1; u64 b64 = 1; pe.get_image_base(b32); pe.get_image_base(b64); CHECK_EQ(b32, (u32)m.base, S); CHECK_EQ(b64, m.base, S);
    CHECK_EQ(pe.get_section_alignment(), m.salign, S); CHECK_EQ(pe.get_file_alignment(), m.falign, S);
    CHECK_EQ(pe.get_major_os_version(), m.majos, S); CHECK_EQ(pe.get_minor_os_version(), m.minos, S); CHECK_EQ(pe.get_major_subsystem_version(), m.majsub, S); CHECK_EQ(pe.get_minor_subsystem_version(), m.minsub, S);
    CHECK_EQ(pe.get_size_of_image(), m.size_image, S); CHECK_EQ(pe.get_size_of_headers(), m.size_headers, S); CHECK_EQ(pe.get_checksum(), m.checksum, S);
    CHECK_EQ(pe.get_subsystem(), m.subsystem, S); CHECK_EQ(pe.get_dll_characteristics(), m.dllchars, S);
    CHECK_EQ(pe.is_console(), m.subsystem == 3, S); CHECK_EQ(pe.is_gui(), m.subsystem == 2, S);
    CHECK_EQ(pe.get_stack_size_reserve_64(), m.sres, S); CHECK_EQ(pe.get_stack_size_commit_64(), m.scom, S); CHECK_EQ(pe.get_heap_size_reserve_64(), m.hres, S); CHECK_EQ(pe.get_heap_size_commit_64(), m.hcom, S);
    CHECK_EQ(pe.get_stack_size_reserve_32(), (u32)m.sres, S); CHECK_EQ(pe.get_stack_size_commit_32(), (u32)m.scom, S); CHECK_EQ(pe.get_heap_size_reserve_32(), (u32)m.hres, S); CHECK_EQ(pe.get_heap_size_commit_32(), (u32)m.hcom, S);
    u32 nd = std::min<u32>(m.ndirs, 16);
    CHECK_EQ(pe.get_number_of_rvas_and_sizes(), nd, S);
    Str nt(const_cast<const pe_base&>(pe).get_nt_headers_ptr(), 24 + m.opt_size()); Str fnt = file.substr(m.lfanew, 24 + m.opt_size());
    if(m.ndirs > 16) { p32(fnt, 24 + (m.p64 ? 108 : 92), 16); }
    CHECK(nt == fnt, "load.nt", "raw NT headers differ from the file");
    for(u32 i = 0; i < 18; ++i)
    {
        if(i < nd)
        {
            CHECK_EQ(pe.get_directory_rva(i), m.dirs[i].first, "load.dir"); CHECK_EQ(pe.get_directory_size(i), m.dirs[i].second, "load.dir");
            CHECK(pe.directory_exists(i) == (m.dirs[i].first != 0), "load.dir", "directory_exists(" << i << ") wrong");
        }
        else
        {
            CHECK(!pe.directory_exists(i), "load.dir.absent", "directory " << i << " reported although the file has only " << nd);
            CHECK(throws_pe([&] { pe.get_directory_rva(i); }), "load.dir.absent", "RVA of absent directory " << i << " returned");
            CHECK(throws_pe([&] { pe.get_directory_size(i); }), "load.dir.absent", "size of absent directory " << i << " returned");
        }
    }
    auto D = [&](u32 i) { return i < nd && m.dirs[i].first != 0; };
    CHECK(pe.has_exports() == D(0) && pe.has_imports() == D(1) && pe.has_resources() == D(2) && pe.has_exception_directory() == D(3) && pe.has_security() == D(4)
        && pe.has_reloc() == (D(5) && !(m.chars & 1)) && pe.has_debug() == D(6) && pe.has_tls() == D(9) && pe.has_config() == D(10) && pe.has_bound_import() == D(11) && pe.has_delay_import() == D(13) && pe.is_dotnet() == D(14), "load.dir.has", "a has_* answer contradicts the directory table");
    const section_list& sl = pe.get_image_sections();
    CHECK_EQ(sl.size(), m.secs.size(), "load.sections");
    u64 last_end = 0; bool unaligned = false;
    for(size_t i = 0; i < sl.size(); ++i)
    {
        const section& s = sl[i]; const Sec& e = m.secs[i];
        Str en = e.name; en = en.substr(0, en.find('\0'));
        CHECK_EQ(s.get_name(), en, "load.section.name");
        CHECK_EQ(s.get_virtual_size(), e.vsize, "load.section"); CHECK_EQ(s.get_virtual_address(), e.va, "load.section");
        CHECK_EQ(s.get_pointer_to_raw_data(), e.rawptr, "load.section"); CHECK_EQ(s.get_characteristics(), e.chars, "load.section");
        Str hdr((const char*)&s.get_raw_header(), 40), fh = file.substr(m.table_off() + 40 * i, 40);
        bool trunc = e.rawsize && up(e.rawsize, m.falign) > up(e.vsize, m.salign);
        u32 raw = trunc ? e.vsize : e.rawsize;
        if(trunc) p32(fh, 16, raw);
        CHECK(hdr == fh, "load.section", "section header " << i << " differs from the file");
        CHECK_EQ(s.get_size_of_raw_data(), raw, "load.section");
        size_t off = (size_t)(mem ? down(e.va, m.salign) : down(e.rawptr, m.falign));
        CHECK(s.get_raw_data() == file.substr(raw ? off : 0, raw), "load.section.data", "contents of section " << i << " differ from the file");
        CHECK_EQ(s.empty(), raw == 0, "load.section");
        CHECK(s.readable() == !!(e.chars & 0x40000000) && s.writeable() == !!(e.chars & 0x80000000) && s.executable() == !!(e.chars & 0x20000000) && s.shared() == !!(e.chars & 0x10000000) && s.discardable() == !!(e.chars & 0x02000000), "load.section.attr", "attribute query contradicts characteristics " << hx(e.chars));
        CHECK_EQ((u64)s.get_aligned_virtual_size(m.salign), up(e.vsize, m.salign), "load.section"); CHECK_EQ((u64)s.get_aligned_raw_size(m.falign), up(raw, m.falign), "load.section");
        // virtual view: raw data followed by zeros up to the aligned virtual size
        const Str& v = s.get_virtual_data(m.salign);
        CHECK_EQ((u64)v.size(), std::max<u64>(up(e.vsize, m.salign), raw), "load.section.virtual");
        CHECK(v.compare(0, raw, file, raw ? off : 0, raw) == 0 && v.find_first_not_of('\0', raw) == Str::npos, "load.section.virtual", "virtual view of section " << i << " is not its raw data padded with zeros");
        CHECK_EQ((u64)s.get_raw_data().size(), (u64)raw, "load.section.virtual");
        if(e.rawsize) { last_end = std::max(last_end, (u64)e.rawptr + e.rawsize); if(e.rawptr % m.falign) unaligned = true; }
    }
    if(!mem && last_end && !unaligned) CHECK_EQ(pe.has_overlay(), file.size() > last_end, "load.overlay");
    // the headers end where the contents of the first section with any begin, even if SizeOfHeaders says otherwise
    size_t hdr = std::min<size_t>(m.size_headers, file.size()); for(auto& e : m.secs) if(std::min(e.rawsize, e.vsize)) { hdr = std::min<size_t>(hdr, e.rawptr); break; }
    CHECK_EQ(pe.get_full_headers_data(), file.substr(0, hdr), "load.headers_data");
}

static void bad(Gen& g)
{
    GenOpt o; o.min_secs = 1; o.odd_layout = false; o.raw_gt_virtual = false; o.many_secs = false; o.tiny_header = false; Img m = gen_img(g, o); Str why; m.overlay.clear();
    Sec& s = m.secs[(size_t)g.below(m.secs.size())]; Str f; bool wrong_type = false; bool any64 = m.p64;
    unsigned k = (unsigned)g.below(21);
    auto notpow2 = [&](u32 lo) { u32 v = (u32)g.range(lo, 0x20000); while(!(v & (v - 1))) ++v; return v; };
    switch(k)
    {
    case 0: f = write(m); p16(f, 0, (u16)(0x5a4d ^ (1u << g.below(16)))); why = "wrong DOS signature"; break;
    case 1: { if(g.flip() && m.table_end() + 3 <= m.size_headers) { m.lfanew += (u32)g.range(1, 3); f = write(m); } else { f = write(m); p32(f, 0x3c, m.lfanew + (u32)g.range(1, 3)); } why = "PE header not DWORD aligned"; break; }
    case 2: f = write(m); p32(f, 0x3c, (u32)(up(f.size(), 4) + 4 * g.edge(0, 0x1fffffff))); why = "e_lfanew beyond the file"; break;
    case 3: f = write(m); p32(f, m.lfanew, 0x4550 ^ (1u << g.below(32))); why = "wrong PE signature"; break;
    case 4: f = write(m); { u16 v; do v = g.u16any(); while(v == (m.p64 ? 0x20b : 0x10b)); p16(f, m.lfanew + 24, v); if(v == 0x10b || v == 0x20b) any64 = m.p64; } why = "wrong optional header magic"; break;
    case 5: m.falign = notpow2(1); f = write(m); why = "file alignment not a power of two"; break;
    case 6: m.salign = notpow2(1); f = write(m); why = "section alignment not a power of two"; break;
    case 7: if(m.salign <= 512) g.discard(); m.falign = 1u << g.below(9); f = write(m); why = "file alignment below 512"; break;
    case 8: m.falign = m.salign << g.range(1, 4); f = write(m); why = "file alignment above section alignment"; break;
    case 9:
    {   // nothing but the number is wrong: all sections follow each other, hold no file data, and the headers have room for all of them
        if(m.salign < 0x200) g.discard(); size_t n = (size_t)g.edge(97, 200); Sec x = m.secs[0]; x.rawsize = 0; x.rawptr = 0; x.data.clear(); m.secs.assign(n, x); u32 hdr = (u32)up(std::max<u64>(m.table_end(), m.size_headers), m.salign);
        for(size_t i = 0; i < n; ++i) { m.secs[i].va = hdr + (u32)i * m.salign; m.secs[i].vsize = m.salign; } m.size_image = hdr + (u32)n * m.salign; f = write(m); f.resize(std::max<size_t>(f.size(), hdr), 0); why = "too many sections"; if(g.chance(1, 8)) { f.resize(f.size() + 65535 * 40, 0); p16(f, m.lfanew + 6, 65535); } break;
    }
    case 10: { f = write(m); size_t i = &s - &m.secs[0]; p32(f, m.table_off() + 40 * i + 8, 0); p32(f, m.table_off() + 40 * i + 16, 0); why = "section with both sizes zero"; break; }
    case 11: s.vsize = (u32)g.edge(0x80000001u, 0xffffffffu); f = write(m); why = "virtual size above 2 GB"; break;
    case 12: { f = write(m); size_t i = &s - &m.secs[0]; p32(f, m.table_off() + 40 * i + 16, (u32)g.edge(0x80000001u, 0xffffffffu)); why = "raw size above 2 GB"; break; }
    case 13: { if(m.secs.size() < 2) g.discard(); size_t i = (size_t)g.range(1, m.secs.size() - 1); for(size_t j = i; j < m.secs.size(); ++j) m.secs[j].va += m.salign; m.size_image += m.salign; f = write(m); why = "hole between sections"; break; }
    case 14: { if(m.secs.size() < 2) g.discard(); size_t i = (size_t)g.range(1, m.secs.size() - 1); m.secs[i].va -= m.salign; f = write(m); why = "overlapping sections"; break; }
    case 15: { m.size_headers = m.secs[0].va + (u32)g.edge(1, 0x10000); f = write(m); f.resize(std::max<size_t>(f.size(), m.size_headers), 0); why = "headers longer than the first section's address"; break; }
    case 16: { u64 end = up(m.secs.back().va + m.secs.back().vsize, m.salign); u64 n = end / m.salign; if(n < 2) g.discard(); m.size_image = (u32)(g.range(0, n - 1) * m.salign); f = write(m); why = "section beyond SizeOfImage"; break; }
    case 17: { f = write(m); size_t endhdr = m.table_end(); size_t mx = endhdr; for(auto& x : m.secs) if(x.rawsize) mx = std::max<size_t>(mx, x.rawptr + x.rawsize); size_t cut = (size_t)(g.flip() ? mx - 1 - g.below(std::min<u64>(mx, 64)) : g.below(mx)); f.resize(cut); why = "file truncated to " + std::to_string(cut); break; }
    case 19: { f = write(m); unsigned w = 1 + (unsigned)g.below(3); if(w & 1) p32(f, m.lfanew + 24 + 32, 0); if(w & 2) p32(f, m.lfanew + 24 + 36, 0); why = "zero alignment"; break; }
    case 18: wrong_type = true; f = write(m); why = "image of the other type"; break;
    default: { if(g.flip()) m.secs.clear(); m.size_image = 0; f = write(m); why = "zero SizeOfImage"; break; }
    }
    g.label("rejected: " + why.substr(0, why.find(" to ")) ); g.note("bad image (" + why + ") " + describe(m)); g.nontrivial();
    bool p64 = any64 != wrong_type; if(k == 4) { u16 v = (u16)((u8)f[m.lfanew + 24] | (u8)f[m.lfanew + 25] << 8); bool other = v == 0x10b || v == 0x20b; bool thr = throws_pe([&] { std::istringstream ts(f); pe_base::get_pe_type(ts); }); CHECK(thr != other, "load.type-magic", "get_pe_type " << (thr ? "refused" : "accepted") << " the magic " << hx(v)); }
    bool acc = false;
    try { load(f, p64, false, g.flip()); acc = true; } catch(const pe_exception&) {} catch(const std::bad_alloc&) {}
    CHECK(!acc, "load.accepts-invalid", "accepted an invalid image: " << why);
    if(k <= 3)
    {
        std::istringstream is(f); bool a2 = false;
        try { std::unique_ptr<pe_base> p(new pe_base(pe_factory::create_pe(is))); a2 = true; } catch(const pe_exception&) {}
        CHECK(!a2, "load.accepts-invalid", "factory accepted an invalid image: " << why); if(k != 1) CHECK(throws_pe([&] { std::istringstream ts(f); pe_base::get_pe_type(ts); }), "load.type-invalid", "get_pe_type gave a type: " << why);
    }
}

// small images: bit 0 - has an overlay, bit 1 - 64 bits
static pe_base other_image(unsigned k)
{
    pe_base e = k & 2 ? pe_base(pe_properties_64()) : pe_base(pe_properties_32()); section s; s.set_name(".one"); s.set_raw_data("one"); e.add_section(s); std::ostringstream o; rebuild_pe(e, o); std::istringstream is(o.str() + (k & 1 ? "overlay" : "")); return pe_base(pe_factory::create_pe(is));
}

static void run(Gen& g)
{
    if(g.chance(1, 4)) { bad(g); return; }
    Img m = gen_img(g); bool mem = g.chance(1, 6);
    if(m.ndirs > 6 && !(m.dirs[6].first == 0)) m.dirs[6].first &= 0x7fffffff;
    bool many = false; if(m.ndirs == 16 && g.chance(1, 10)) { m.ndirs = (u32)g.edge(17, 0xffffffffu); many = true; g.label("more than 16 directories declared"); }
    if(mem) g.label("from memory");
    if(m.secs.size() && m.secs[0].va - m.size_headers >= m.falign && m.salign > m.falign && g.chance(1, 12)) { m.size_headers += m.falign * (u32)g.edge(1, (m.secs[0].va - m.size_headers) / m.falign > 256 ? 256 : (m.secs[0].va - m.size_headers) / m.falign); g.label("SizeOfHeaders beyond the first contents"); }
    Str f = write(m, mem);
    if(mem) { size_t want = f.size(); for(auto& s : m.secs) want = std::max<size_t>(want, (size_t)down(s.rawptr, m.falign) + s.rawsize); if(want > (64u << 20)) g.discard(); f.resize(want, 0); for(auto& s : m.secs) if(s.rawsize > up(s.vsize, m.salign)) g.discard(); }
    if(f.size() < m.size_headers && g.flip()) f.resize(m.size_headers, 0);
    if(f.size() < m.table_end()) f.resize(m.table_end(), 0);
    g.note((mem ? "memory " : "file ") + describe(m));
    for(auto& s : m.secs) if(s.rawsize) { g.nontrivial(); break; }
    Pe pe = must_load(f, m.p64, "load.rejects-valid", mem);
    compare(*pe, m, f, mem);
    std::istringstream is(f);
    CHECK(pe_base::get_pe_type(is) == (m.p64 ? pe_type_64 : pe_type_32), "load.type", "get_pe_type misjudges the image");
    if(!mem)
    {
        try { pe_base p2(pe_factory::create_pe(is, false, g.flip())); compare(p2, m, f, false); pe_base p3(p2); compare(p3, m, f, false); if(g.flip()) { unsigned k = (unsigned)g.below(5); if(k == 4) p3 = pe_base(pe_properties_32()); else { pe_base other(other_image(k)); pe_base p4(other); p4 = *pe; compare(p4, m, f, false); p4 = other; CHECK(p4.has_overlay() == !!(k & 1) && p4.get_pe_type() == (k & 2 ? pe_type_64 : pe_type_32) && p4.get_image_sections().size() == 1 && p4.get_full_headers_data() == other.get_full_headers_data(), "load.assign", "assigned image is not like the one it was assigned from"); g.label("assigned to and from another image"); } } p3 = *pe; compare(p3, m, f, false); }
        catch(const pe_exception& e) { fail("load.factory", std::string("factory rejected the image: ") + e.what()); }
    }
    (void)many;
}
const pbt::PropInfo pbt::prop_info = {"C02", "3/4 valid PE/PE+ images serialised from a generated model (alignments, 0..96 sections, odd layouts, memory dumps) and compared field by field; 1/4 images with one container rule broken, which must be refused. Non-trivial: has section data, or is a broken image.", run, 60000, 1500000, 0, 0, 20};
