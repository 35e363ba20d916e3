// C04: any history of section edits leaves a contiguous, aligned section table with intact contents.
#include "gen_pe.h"
using namespace ref;

struct MSec { Str name; u32 chars; Str data; u32 va; u64 asize; };   // data: logical contents, trailing zeros insignificant
struct Model { std::vector<MSec> s; };
static Str rtrim(Str s) { size_t p = s.find_last_not_of('\0'); s.resize(p == Str::npos ? 0 : p + 1); return s; }

static void invariants(const pe_base& pe, const Model& m, const char* after)
{
    const section_list& l = pe.get_image_sections(); u32 sa = pe.get_section_alignment();
    CHECK(l.size() == m.s.size(), "edit.count", "after " << after << ": " << l.size() << " sections instead of " << m.s.size());
    CHECK(pe.get_number_of_sections() == m.s.size(), "edit.count", "after " << after << ": header says " << pe.get_number_of_sections() << " sections");
    u64 end = 0;
    for(size_t i = 0; i < l.size(); ++i)
    {
        const section& s = l[i];
        CHECK(s.get_virtual_address() % sa == 0, "edit.align", "after " << after << ": section " << i << " starts at unaligned " << hx(s.get_virtual_address()));
        if(i) CHECK(s.get_virtual_address() == end, "edit.contiguous", "after " << after << ": section " << i << " starts at " << hx(s.get_virtual_address()) << " but the previous one ends at " << hx(end));
        CHECK(s.get_virtual_address() == m.s[i].va, "edit.moved", "after " << after << ": section " << i << " moved to " << hx(s.get_virtual_address()) << " from " << hx(m.s[i].va));
        u64 as = s.get_aligned_virtual_size(sa); end = s.get_virtual_address() + as;
        CHECK(as == m.s[i].asize, "edit.size", "after " << after << ": section " << i << " occupies " << hx(as) << " instead of " << hx(m.s[i].asize));
        CHECK(s.get_raw_data().size() <= as, "edit.size", "after " << after << ": raw data of section " << i << " longer than its virtual size");
        CHECK(rtrim(s.get_raw_data()) == rtrim(m.s[i].data), "edit.data", "after " << after << ": contents of section " << i << " changed");
        CHECK_EQ(s.get_name(), m.s[i].name, "edit.name"); CHECK_EQ(s.get_characteristics(), m.s[i].chars, "edit.chars");
        CHECK(pe.section_attached(s), "edit.attached", "attached section reported as not attached");
        CHECK(s.get_size_of_raw_data() == 0 || up(s.get_size_of_raw_data(), pe.get_file_alignment()) >= up(rtrim(s.get_raw_data()).size(), pe.get_file_alignment()), "edit.rawsize", "after " << after << ": SizeOfRawData of section " << i << " does not cover its contents");
    }
}

static void check_file(const Str& out, const Model& m, Img& r)
{
    Str why; CHECK(parse(out, r, why), "edit.file", "written file unreadable: " << why);
    CHECK(well_formed(r, out.size(), why), "edit.file", "written file breaks a layout rule: " << why);
    CHECK_EQ(r.secs.size(), m.s.size(), "edit.file");
    for(size_t i = 0; i < r.secs.size(); ++i)
    {
        CHECK_EQ(r.secs[i].name, m.s[i].name, "edit.file.name"); CHECK_EQ(r.secs[i].chars, m.s[i].chars, "edit.file.chars"); CHECK_EQ(r.secs[i].va, m.s[i].va, "edit.file.va");
        CHECK(rtrim(r.secs[i].data) == rtrim(m.s[i].data), "edit.file.data", "contents of section " << i << " are different in the written file");
        CHECK_EQ(up(r.secs[i].vsize ? r.secs[i].vsize : r.secs[i].rawsize, r.salign), m.s[i].asize, "edit.file.size");
    }
}

// Space the headers of the image take in a file
static u64 headers_need(const pe_base& pe, const Model& m, u32 fa)
{
    return up(64 + up(pe.get_stub_overlay().size(), 4) + 24 + (pe.get_pe_type() == pe_type_64 ? 112 : 96) + 8 * pe.get_number_of_rvas_and_sizes() + 40 * m.s.size(), fa);
}
// Saves the image; false if it was refused because its headers cannot fit before the first section
static bool save(pe_base& pe, const Model& m, Str& out)
{
    bool fits = m.s.empty() || headers_need(pe, m, pe.get_file_alignment()) <= m.s[0].va;
    try { out = rebuilt(pe); } catch(const pe_exception& e) { CHECK(!fits, "edit.save", "rebuild_pe refused the edited image: " << e.what()); return false; }
    CHECK(fits, "edit.save.toolong", "rebuild_pe accepted headers which overlap the first section"); return true;
}

static void run(Gen& g)
{
    Pe pe; Model m; bool fresh = g.chance(2, 3); u32 first_va = 0; bool image_size_tracked = false;
    if(fresh)
    {
        bool p64 = g.flip(); u32 sa = g.pick({0x1000u, 0x1000u, 0x2000u, 0x200u, 0x400u, 0x10000u}); bool dll = g.flip(); u16 sub = g.pick({(u16)2, (u16)3});
        pe_properties_32 p32_; pe_properties_64 p64_; if(p64) pe.reset(new pe_base(p64_, sa, dll, sub)); else pe.reset(new pe_base(p32_, sa, dll, sub)); // (automatic objects are filled with a pattern first)
        g.note(std::string("new ") + (p64 ? "PE32+" : "PE32") + " section alignment " + hx(sa)); g.label("created image");
        CHECK(pe->get_section_alignment() == sa && pe->get_subsystem() == sub && pe->check_characteristics_flag(0x2000) == dll && pe->check_characteristics_flag(2) && pe->get_pe_type() == (p64 ? pe_type_64 : pe_type_32), "create", "created image does not have the requested properties");
        CHECK(pe->check_characteristics_flag(0x100) == !p64, "create", "32-bit machine flag wrong"); CHECK_EQ(pe->get_machine(), (u16)(p64 ? 0x8664 : 0x14c), "create.machine");
        for(u32 i = 0; i < 16; ++i) CHECK(!pe->directory_exists(i) && !pe->get_directory_rva(i) && !pe->get_directory_size(i), "create.directories", "a created image has directory " << i);
        CHECK(pe->get_number_of_rvas_and_sizes() == 16 && pe->get_number_of_sections() == 0 && pe->get_image_sections().empty() && !pe->get_ep() && !pe->get_checksum() && !pe->get_dll_characteristics() && !pe->get_time_date_stamp() && pe->get_stub_overlay().empty() && !pe->has_overlay(), "create.fields", "a created image is not empty");
        CHECK(pe->get_image_base_64() && pe->get_image_base_64() % 0x10000 == 0 && pe->get_stack_size_commit_64() && pe->get_stack_size_commit_64() <= pe->get_stack_size_reserve_64() && pe->get_heap_size_commit_64() && pe->get_heap_size_commit_64() <= pe->get_heap_size_reserve_64() && pe->get_heap_size_reserve_64() % 0x1000 == 0 && pe->get_stack_size_reserve_64() % 0x1000 == 0 && pe->get_size_of_headers() && pe->get_size_of_headers() % pe->get_file_alignment() == 0, "create.defaults", "a created image could not be loaded by anyone");
        if(g.chance(1, 8)) { u32 h = (u32)g.range(2, 64) * 0x200; pe->set_size_of_headers(h); g.note("SizeOfHeaders set to " + hx(h)); g.label("headers of several sections' size"); }
    }
    else
    {
        GenOpt o; o.odd_layout = false; o.low_align = false; o.raw_gt_virtual = false; o.tiny_header = false; o.random_dirs = false; o.max_vpages = 2; Img i = gen_img(g, o);
        if(i.ndirs > 11) i.dirs[11] = std::make_pair(0u, 0u);
        Str f = write(i); if(f.size() < i.size_headers) f.resize(i.size_headers, 0);
        pe = must_load(f, i.p64, "load"); g.note("loaded " + describe(i)); g.label("loaded image");
        for(auto& s : i.secs) { MSec x; x.name = s.name.substr(0, s.name.find('\0')); x.chars = s.chars; x.data = s.data; x.va = s.va; x.asize = up(s.vsize, i.salign); m.s.push_back(x); }
        // header fields of sections outside the model (relocation pointers) stay as they are
    }
    bool huge = g.chance(1, 12); if(huge) g.label("virtual sizes up to 4 GB"); struct Snap { Pe pe; Model m; }; std::vector<Snap> snaps;
    unsigned n = (unsigned)g.range(1, g.chance(1, 30) ? 120 : 14); unsigned added = 0; u64 total = 0; bool many = n > 14;
    for(unsigned step = 0; step < n; ++step)
    {
        u32 sa = pe->get_section_alignment(), fa = pe->get_file_alignment();
        unsigned op = many ? g.weighted({20, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0}) : g.weighted({6, 2, 3, 3, 2, 2, 3, 1, 2, 1, 2, 1, 1, 2});
        std::ostringstream d; d << "#" << step << " ";
        for(auto& x : m.s) total += x.data.size();
        if(total > (8u << 20)) break;
        bool last_only = !m.s.empty();
        switch(op)
        {
        case 0:
        {
            section s; MSec x; x.name = g.name(0, 10); x.chars = g.chance(1, 2) ? g.u32any() : 0x60000020;
            s.set_name(x.name); s.set_characteristics(x.chars); x.name = x.name.substr(0, 8);
            bool big = !many && g.chance(1, 12); u32 vs = g.chance(1, 2) ? (u32)g.edge(1, big ? 0x30000 : 3 * 0x1000) : 0; if(huge && !many && g.chance(1, 3)) { u64 end = m.s.empty() ? 0 : m.s.back().va + m.s.back().asize; vs = (u32)(g.flip() ? (u64)g.edge(1, 0xffffffff) : std::min<u64>(0xffffffff, std::max<int64_t>(1, (int64_t)(0x100000000ull - end) + (int64_t)g.below(4 * sa) - 2 * (int64_t)sa))); } x.data = many ? Str(1, 'x') : g.chance(1, 4000) ? g.bytes((size_t)g.range(0x100001, 0x140000)) : g.bytes(g.chance(1, 5) ? 0 : (size_t)g.edge(1, big ? 0x30000 : 0x2400));
            s.set_virtual_size(vs); if(g.flip()) s.set_raw_data(x.data); else s.get_raw_data() = x.data;
            u32 wantva = 0; if(m.s.empty() && g.chance(1, 3)) { wantva = sa * (u32)g.range(1 + up(pe->get_size_of_headers(), sa) / sa, 40 + up(pe->get_size_of_headers(), sa) / sa) - (u32)g.below(2) * (sa / 2); s.set_virtual_address(wantva); }
            d << "add_section name=\"" << x.name << "\" raw=" << x.data.size() << " vsize=" << hx(vs) << " va=" << hx(wantva); g.note(d.str());
            u64 start = m.s.empty() ? up(wantva ? wantva : pe->get_size_of_headers(), sa) : m.s.back().va + m.s.back().asize, size = up(std::max<u64>(vs, up(x.data.size(), fa)), sa); bool full = start + size > 0xffffffff || vs > 0x80000000; if(full) g.label("beyond the address space");
            bool expect_throw = m.s.size() >= 96 || (!vs && x.data.empty()) || full;
            bool autoup = !g.chance(1, 6); bool threw = false;
            try { section& r = pe->add_section(s, autoup); CHECK(&r == &pe->get_image_sections().back(), "edit.add.return", "add_section does not return the added section"); }
            catch(const pe_exception&) { threw = true; }
            CHECK(threw == expect_throw, "edit.add.refusal", d.str() << (threw ? " refused" : " accepted"));
            if(threw) { if(m.s.size() >= 96) g.label("section limit reached"); break; }
            u64 need = up(std::max<u64>(vs, x.data.size()), sa); x.asize = need;
            x.va = m.s.empty() ? (u32)up(wantva ? wantva : pe->get_size_of_headers(), sa) : (u32)(m.s.back().va + m.s.back().asize);
            // raw data is file-aligned first, which may take one more virtual page when alignments are equal
            x.asize = std::max(x.asize, up(up(x.data.size(), fa), sa));
            m.s.push_back(x); ++added; break;
        }
        case 1: // virtual size of the last section
        {
            if(m.s.empty()) break; size_t i = g.chance(1, 5) ? (size_t)g.below(m.s.size()) : m.s.size() - 1; section& s = pe->get_image_sections()[i];
            u64 minv = std::max<u64>(1, std::max<u64>(s.get_raw_data().size(), s.get_size_of_raw_data())); u32 v = g.chance(1, 6) ? 0 : (u32)g.edge(minv, minv + 4 * sa); if(huge && g.chance(1, 3)) v = g.flip() ? (u32)g.edge(minv, 0xffffffff) : std::max((u32)minv, (u32)(0u - m.s[i].va + (u32)g.below(4 * sa) - 2 * sa));
            d << "set_section_virtual_size section=" << i << " " << hx(v); g.note(d.str());
            bool bad = i + 1 != m.s.size() || (v == 0 && s.get_raw_data().empty()) || m.s[i].va + up(v, sa) > 0xffffffff || v > 0x80000000;
            bool threw = throws_pe([&] { pe->set_section_virtual_size(s, v); });
            CHECK(threw == bad, "edit.vsize.refusal", d.str() << (threw ? " refused" : " accepted"));
            if(!threw) { if(v) CHECK_EQ(s.get_virtual_size(), v, "edit.vsize"); m.s[i].asize = up(v ? v : s.get_size_of_raw_data(), sa); CHECK_EQ((u64)pe->get_size_of_image(), (u64)m.s[i].va + m.s[i].asize, "edit.vsize.image"); }
            break;
        }
        case 2: // expand the last section
        {
            if(m.s.empty()) break; size_t i = g.chance(1, 6) ? (size_t)g.below(m.s.size()) : m.s.size() - 1; section& s = pe->get_image_sections()[i];
            bool raw = g.flip(); u32 off = (u32)g.edge(0, (raw ? std::min<u64>(m.s[i].asize, 0x20000) : m.s[i].asize) - 1); u32 need = (u32)g.edge(0, g.chance(1, 12) ? 0x28000 : 2 * 0x1000); if(huge && !raw && g.chance(1, 3)) need = g.flip() ? g.u32any() : (u32)(0u - m.s[i].va - off + (u32)g.below(4 * sa) - 2 * sa); u32 have = (u32)s.get_raw_data().size();
            d << "expand_section section=" << i << (raw ? " raw" : " virtual") << " offset=" << hx(off) << " size=" << hx(need); g.note(d.str());
            bool threw = false, ret = false;
            try { ret = pe->expand_section(s, m.s[i].va + off, need, raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual); } catch(const pe_exception&) { threw = true; }
            CHECK(threw == (i + 1 != m.s.size() || (u64)off + need > 0xffffffff || (need > m.s[i].asize - off && (m.s[i].va + up((u64)off + need, sa) > 0xffffffff || (u64)off + need > 0x80000000))), "edit.expand.refusal", d.str() << (threw ? " refused" : " accepted"));
            if(threw) break;
            if(raw)
            {
                u32 avail = have > off ? have - off : 0;
                CHECK(ret == (avail < need), "edit.expand.result", d.str() << " returned " << ret << " with " << have << " bytes of raw data");
                if(ret) { u64 sz = (u64)off + need; CHECK(s.get_raw_data().size() >= sz, "edit.expand.raw", d.str() << " left only " << s.get_raw_data().size() << " bytes"); m.s[i].asize = std::max(m.s[i].asize, up(up(sz, fa), sa)); }
            }
            else
            {
                CHECK(ret == (m.s[i].asize - off < need), "edit.expand.result", d.str() << " returned " << ret);
                if(ret) m.s[i].asize = up((u64)off + need, sa);
            }
            break;
        }
        case 3: // overwrite bytes
        {
            if(m.s.empty()) break; size_t i = (size_t)g.below(m.s.size()); section& s = pe->get_image_sections()[i]; if(s.get_raw_data().empty()) break;
            u32 off = (u32)g.edge(0, s.get_raw_data().size() - 1); u32 len = (u32)g.edge(1, std::min<u64>(s.get_raw_data().size() - off, 64)); Str b = g.bytes(len);
            unsigned how = (unsigned)g.below(m.s[i].asize > 0x100000 ? 3 : 4); d << "write section=" << i << " offset=" << hx(off) << " len=" << len << " how=" << how; g.note(d.str());
            char* p = how == 0 ? &s.get_raw_data()[off] : how == 1 ? pe->section_data_from_rva(m.s[i].va + off) : how == 2 ? pe->section_data_from_rva(s, m.s[i].va + off) : &s.get_virtual_data(sa)[off];
            memcpy(p, b.data(), len); if(m.s[i].data.size() < off + len) m.s[i].data.resize(off + len, 0); m.s[i].data.replace(off, len, b);
            break;
        }
        case 4: // new contents for a section, then recalculate
        {
            if(m.s.empty()) break; size_t i = g.chance(1, 3) ? (size_t)g.below(m.s.size()) : m.s.size() - 1; section& s = pe->get_image_sections()[i]; bool last = i + 1 == m.s.size();
            bool big = g.chance(1, 12); u64 cap = last ? (big ? 0x30000 : 0x3000) : m.s[i].asize; Str b = g.bytes((size_t)g.edge(1, std::min<u64>(cap, big ? 0x30000 : 0x3000))); if(g.flip()) b += Str(std::min<size_t>((size_t)g.below(600), (size_t)cap > b.size() ? (size_t)cap - b.size() : 0), 0); bool strip = g.flip();
            if(up(b.size(), fa) > cap && !last) break;
            d << "set_raw_data section=" << i << " len=" << b.size() << " then recalculate strip=" << strip; g.note(d.str());
            s.set_raw_data(b); pe->recalculate_section_sizes(s, strip); m.s[i].data = b; m.s[i].asize = std::max(m.s[i].asize, up(up(b.size(), fa), sa)); break;
        }
        case 5: { g.note(d.str() + "realign_all_sections"); pe->realign_all_sections(); { size_t ns = pe->get_image_sections().size(); u32 at = g.flip() ? (u32)ns : (u32)g.edge(ns, 0xffffffff); CHECK(throws_pe([&] { pe->realign_section(at); }), "hist.realign", "section " << at << " of " << ns << " realigned"); if(ns) pe->realign_section((u32)g.below(ns)); } break; }
        case 6: // file alignment
        {
            u32 v = g.chance(1, 4) ? (u32)g.edge(0, 0x20000) : 0x200u << g.below(8); bool real = !g.chance(1, 5); bool ok = v >= 512 && !(v & (v - 1)) && v <= sa;
            if(ok && !m.s.empty() && headers_need(*pe, m, v) > m.s[0].va) break;  // headers would no longer fit
            d << (real ? "realign_file " : "set_file_alignment ") << hx(v); g.note(d.str());
            bool threw = throws_pe([&] { if(real) pe->realign_file(v); else pe->set_file_alignment(v); });
            CHECK(threw == !ok, "edit.falign.refusal", d.str() << (threw ? " refused" : " accepted") << " with section alignment " << hx(sa));
            CHECK_EQ(pe->get_file_alignment(), threw ? fa : v, "edit.falign");
            if(!threw && real) for(size_t i = 0; i + 1 < m.s.size(); ++i) CHECK(pe->get_image_sections()[i].get_size_of_raw_data() % v == 0, "edit.falign.raw", "after " << d.str() << " raw size of section " << i << " is not aligned");
            break;
        }
        case 7: { if(m.s.empty()) break; size_t i = (size_t)g.below(m.s.size()); Str nm = g.name(0, 12); pe->get_image_sections()[i].set_name(nm); m.s[i].name = nm.substr(0, 8); g.note(d.str() + "rename " + std::to_string(i) + " \"" + nm + "\""); break; }
        case 8:
        {
            if(m.s.empty()) break; size_t i = (size_t)g.below(m.s.size()); section& s = pe->get_image_sections()[i]; unsigned a = (unsigned)g.below(5); bool v = g.flip();
            static const u32 bit[] = {0x40000000, 0x80000000, 0x20000000, 0x10000000, 0x02000000};
            section& r = a == 0 ? s.readable(v) : a == 1 ? s.writeable(v) : a == 2 ? s.executable(v) : a == 3 ? s.shared(v) : s.discardable(v); (void)r;
            if(v) m.s[i].chars |= bit[a]; else m.s[i].chars &= ~bit[a]; d << "attribute " << a << "=" << v << " section " << i; g.note(d.str()); break;
        }
        case 9: { if(m.s.size() < 2) break; g.note(d.str() + "remove the last section"); pe->get_image_sections().pop_back(); m.s.pop_back(); if(g.chance(1, 3)) { pe_base c(*pe); Str out; if(save(c, m, out)) { Img r; check_file(out, m, r); } } pe->update_number_of_sections(); pe->update_image_size(); CHECK_EQ((u64)pe->get_size_of_image(), (u64)m.s.back().va + m.s.back().asize, "edit.remove"); break; }
        case 10: // write to a file and go on with the reloaded image
        {
            g.note(d.str() + "save and reload"); g.label("save and reload"); Str out;
            if(!save(*pe, m, out)) { g.label("headers no longer fit"); break; }
            Img r; check_file(out, m, r); pe = must_load(out, pe->get_pe_type() == pe_type_64, "edit.reload"); if(added) g.nontrivial(); break;
        }
        case 12: // new contents for the last section, of which adding the next one takes care
        {
            if(m.s.empty() || m.s.size() >= 96) break; section& s = pe->get_image_sections().back(); u64 cap = std::min<u64>(m.s.back().asize / fa * fa, 0x3000); if(!cap) break; Str b = g.bytes((size_t)g.edge(1, cap)); d << "set_raw_data of the last section, len=" << b.size() << ", then add_section"; g.note(d.str()); s.set_raw_data(b); m.s.back().data = b;
            section x; MSec y; y.name = "next"; y.chars = 0x40000040; y.data = g.bytes((size_t)g.range(1, 300)); x.set_name(y.name); x.set_characteristics(y.chars); x.set_raw_data(y.data); pe->add_section(x); y.va = (u32)(m.s.back().va + m.s.back().asize); y.asize = up(up(y.data.size(), fa), sa); m.s.push_back(y); ++added; g.label("contents changed before the next section"); break;
        }
        case 13: // a section which is not part of the image
        {
            if(m.s.empty()) break; section s; u32 va = (u32)(sa * g.range(0, 40)), vs = (u32)g.edge(1, 3 * sa); Str b = g.bytes((size_t)g.edge(0, std::min<u64>(up(vs, sa), 0x2000))); if(g.flip()) b.resize(b.size() + (size_t)g.below(up(vs, sa) - b.size() + 1) % 600, 0); s.set_virtual_address(va); s.set_virtual_size(vs); s.set_raw_data(b); if(!b.empty()) s.get_raw_header().SizeOfRawData = (u32)up(b.size(), fa);
            u32 image = pe->get_size_of_image(); CHECK(!pe->section_attached(s), "free.attached", "a free section counts as attached"); d << "free section at " << hx(va) << " vsize=" << hx(vs) << " raw=" << b.size();
            for(unsigned k = 0, cnt = (unsigned)g.range(1, 3); k < cnt; ++k)
            {
                u64 as = s.get_aligned_virtual_size(sa);
                switch(g.below(3))
                {
                case 0: { u32 off = (u32)g.edge(0, as - 1), need = (u32)g.edge(0, 0x2000); bool raw = g.flip(); u64 have = raw ? s.get_raw_data().size() : as; d << ", expand " << (raw ? "raw " : "virtual ") << hx(off) << "+" << hx(need); g.note(d.str()); bool ret = pe->expand_section(s, va + off, need, raw ? pe_base::expand_section_raw : pe_base::expand_section_virtual); CHECK(ret == ((have > off ? have - off : 0) < need), "free.expand", d.str() << " returned " << ret); if(ret) CHECK((raw ? (u64)s.get_raw_data().size() : (u64)s.get_aligned_virtual_size(sa)) >= (u64)off + need, "free.expand", d.str() << " left " << s.get_raw_data().size() << " bytes of data and a virtual size of " << hx(s.get_virtual_size())); break; }
                case 1: { bool strip = g.flip(); if(s.get_raw_data().empty()) break; d << ", recalculate strip=" << strip; g.note(d.str()); pe->recalculate_section_sizes(s, strip); break; }
                default: { Str nb = g.bytes((size_t)g.edge(1, 0x1800)); d << ", new data of " << nb.size() << " bytes, recalculate"; g.note(d.str()); s.set_raw_data(nb); b = nb; pe->recalculate_section_sizes(s, g.flip()); break; }
                }
                CHECK(rtrim(s.get_raw_data()) == rtrim(b), "free.data", d.str() << ": contents changed"); CHECK(s.get_aligned_virtual_size(sa) >= s.get_raw_data().size() && (u64)s.get_size_of_raw_data() + fa > s.get_raw_data().size(), "free.size", d.str() << ": " << s.get_raw_data().size() << " bytes with a virtual size of " << hx(s.get_virtual_size()) << " and SizeOfRawData " << hx(s.get_size_of_raw_data())); CHECK_EQ(s.get_virtual_address(), va, "free.moved");
            }
            CHECK(pe->get_size_of_image() == image || pe->get_size_of_image() == (u64)m.s.back().va + m.s.back().asize, "free.image", d.str() << " changed the size of the image to " << hx(pe->get_size_of_image())); g.label("free section"); break;
        }
        default: { g.note(d.str() + "copy the image"); Snap s; s.m = m; if(g.flip()) s.pe.reset(new pe_base(*pe)); else { s.pe.reset(new pe_base(pe_properties_32())); *s.pe = *pe; } snaps.push_back(std::move(s)); if(g.flip()) { std::swap(snaps.back().pe, pe); } g.label("copies"); break; }
        }
        invariants(*pe, m, d.str().c_str());
        if(pe->get_image_sections().size())
        {
            u32 k = (u32)g.below(m.s.size()); u32 off = (u32)g.edge(0, m.s[k].asize - 1);
            CHECK(&pe->section_from_rva(m.s[k].va + off) == &pe->get_image_sections()[k], "edit.lookup", "address lookup finds the wrong section after " << d.str());
        }
    }
    if(added >= 1 || !m.s.empty()) g.nontrivial();
    for(int k = 0; k < 1 + (int)snaps.size(); ++k)
    {
        pe_base& p = k ? *snaps[k - 1].pe : *pe; Model& mm = k ? snaps[k - 1].m : m;
        invariants(p, mm, k ? "editing a copy" : "the whole history");

        Str out; if(!save(p, mm, out)) { g.label("headers no longer fit"); continue; }
        Img r; check_file(out, mm, r); Pe q = must_load(out, p.get_pe_type() == pe_type_64, "edit.reload"); invariants(*q, mm, "reloading");
    }
}
const pbt::PropInfo pbt::prop_info = {"C04", "Histories of up to 120 section edits (add, resize, expand, overwrite, replace, realign, rename, attributes, remove last, save and reload, copy) on created or loaded images against a model of names, addresses, sizes and contents. Non-trivial: the image has sections at the end.", run, 40000, 1000000, 0, 0, 20};
