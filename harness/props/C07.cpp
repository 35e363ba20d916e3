// C07: any history of header and data-directory edits is reflected exactly, by copies and by the saved file.
#include "gen_pe.h"
using namespace ref;

struct M
{
    bool p64; u16 machine, chars, dllchars, subsystem, majos, minos, majsub, minsub; u32 timestamp, checksum, ep, bcode; u64 base, hres, hcom, sres, scom;
    u32 n; std::pair<u32, u32> d[16]; Str stub; u16 dos[29];
    u64 w(u64 v) const { return p64 ? v : (u32)v; }
};
static void compare(const pe_base& pe, const M& m, const Str& after)
{
#define F(get, want) do { auto a_ = (pe.get); decltype(a_) e_ = (decltype(a_))(want); if(a_ != e_) fail("hdr.field", "after " + after + ": " #get " is " + hx((u64)a_) + " instead of " + hx((u64)e_)); } while(0)
    F(get_machine(), m.machine); F(get_characteristics(), m.chars); F(get_dll_characteristics(), m.dllchars); F(get_subsystem(), m.subsystem); F(get_major_os_version(), m.majos); F(get_minor_os_version(), m.minos);
    F(get_major_subsystem_version(), m.majsub); F(get_minor_subsystem_version(), m.minsub); F(get_time_date_stamp(), m.timestamp); F(get_checksum(), m.checksum); F(get_ep(), m.ep); F(get_base_of_code(), m.bcode);
    F(get_image_base_64(), m.base); F(get_image_base_32(), m.base); F(get_heap_size_reserve_64(), m.hres); F(get_heap_size_reserve_32(), m.hres); F(get_heap_size_commit_64(), m.hcom); F(get_heap_size_commit_32(), m.hcom);
    F(get_stack_size_reserve_64(), m.sres); F(get_stack_size_reserve_32(), m.sres); F(get_stack_size_commit_64(), m.scom); F(get_stack_size_commit_32(), m.scom); F(get_number_of_rvas_and_sizes(), m.n);
    { u32 a; u64 b; 
#define G(get, want) pe.get(a); pe.get(b); if(a != (u32)(want) || b != (want)) fail("hdr.field", "after " + after + ": " #get " by reference")
      G(get_image_base, m.base); G(get_heap_size_reserve, m.hres); G(get_heap_size_commit, m.hcom); G(get_stack_size_reserve, m.sres); G(get_stack_size_commit, m.scom); }
    F(is_console(), m.subsystem == 3); F(is_gui(), m.subsystem == 2);
    CHECK(pe.get_stub_overlay() == m.stub, "hdr.stub", "after " << after << ": DOS stub differs");
    const u16* dw = (const u16*)&pe.get_dos_header(); for(int i = 1; i < 29; ++i) CHECK(dw[i] == m.dos[i], "hdr.dos", "after " << after << ": DOS header word " << i);
    for(u32 i = 0; i < 18; ++i)
    {
        bool in = i < m.n; if(!in && i != m.n && i != 17) continue;
        CHECK(pe.directory_exists(i) == (in && m.d[i].first), "dir.exists", "after " << after << ": directory_exists(" << i << ")");
        u32 r = 0, s = 0; bool t = throws_pe([&] { r = pe.get_directory_rva(i); }), t2 = throws_pe([&] { s = pe.get_directory_size(i); });
        CHECK(t == !in && t2 == !in, "dir.bounds", "after " << after << ": directory " << i << " of " << m.n << (t ? " refused" : " readable"));
        if(in) CHECK(r == m.d[i].first && s == m.d[i].second, "dir.value", "after " << after << ": directory " << i << " is " << hx(r) << "/" << hx(s) << " instead of " << hx(m.d[i].first) << "/" << hx(m.d[i].second));
    }
    auto has = [&](u32 i) { return i < m.n && m.d[i].first != 0; };
    CHECK(pe.has_exports() == has(0) && pe.has_imports() == has(1) && pe.has_resources() == has(2) && pe.has_exception_directory() == has(3) && pe.has_security() == has(4) && pe.has_debug() == has(6) && pe.has_tls() == has(9) && pe.has_config() == has(10) && pe.has_bound_import() == has(11) && pe.has_delay_import() == has(13) && pe.is_dotnet() == has(14), "dir.has", "after " << after << ": a has_… query is wrong");
    CHECK(pe.has_reloc() == (has(5) && !(m.chars & 1)), "dir.has_reloc", "after " << after << ": has_reloc() is wrong");
}
static void from_file(M& m, const Img& i)
{
    m.p64 = i.p64; m.machine = i.machine; m.chars = i.chars; m.dllchars = i.dllchars; m.subsystem = i.subsystem; m.majos = i.majos; m.minos = i.minos; m.majsub = i.majsub; m.minsub = i.minsub; m.timestamp = i.timestamp; m.checksum = i.checksum; m.ep = i.ep; m.bcode = i.bcode;
    m.base = m.w(i.base); m.hres = m.w(i.hres); m.hcom = m.w(i.hcom); m.sres = m.w(i.sres); m.scom = m.w(i.scom); m.n = i.ndirs; for(int k = 0; k < 16; ++k) m.d[k] = i.dirs[k]; m.stub = i.stub; for(int k = 0; k < 29; ++k) m.dos[k] = i.dos[k];
}

static void run(Gen& g)
{
    Pe pe; M m; memset((void*)m.d, 0, sizeof m.d);
    {
        GenOpt o; o.low_align = false; o.odd_layout = false; o.tiny_header = false; o.many_secs = false; o.raw_gt_virtual = false; o.min_secs = 1; o.max_vpages = 1;
        Img i = gen_img(g, o); Str f = write(i); if(f.size() < i.size_headers) f.resize(i.size_headers, 0);
        try { pe = load(f, i.p64, false, false); } catch(const pe_exception& e) { fail("hdr.load", e.what()); }
        from_file(m, i); g.note(describe(i));
    }
    compare(*pe, m, "loading");
    struct Snap { Pe pe; M m; }; std::vector<Snap> snaps;
    unsigned n = (unsigned)g.range(1, 30); unsigned edits = 0;
    for(unsigned k = 0; k < n; ++k)
    {
        std::ostringstream d; d << "#" << k << " "; unsigned op = g.weighted({6, 4, 3, 2, 2, 2, 2, 1, 2});
        switch(op)
        {
        case 0:
        {
            unsigned w = (unsigned)g.below(22); u64 v = g.u64any(), v2 = g.u64any(); d << "field " << w << " = " << hx(v) << "," << hx(v2);
            switch(w)
            {
            case 0: pe->set_machine((u16)v); m.machine = (u16)v; break; case 1: pe->set_characteristics((u16)v); m.chars = (u16)v; break;
            case 2: pe->set_characteristics_flags((u16)v); m.chars |= (u16)v; break; case 3: pe->clear_characteristics_flags((u16)v); m.chars &= ~(u16)v; break;
            case 4: pe->set_dll_characteristics((u16)v); m.dllchars = (u16)v; break; case 5: { u16 s = g.flip() ? (u16)g.below(4) : (u16)v; pe->set_subsystem(s); m.subsystem = s; break; }
            case 6: pe->set_os_version((u16)v, (u16)v2); m.majos = (u16)v; m.minos = (u16)v2; break; case 7: pe->set_subsystem_version((u16)v, (u16)v2); m.majsub = (u16)v; m.minsub = (u16)v2; break;
            case 8: pe->set_time_date_stamp((u32)v); m.timestamp = (u32)v; break; case 9: pe->set_checksum((u32)v); m.checksum = (u32)v; break;
            case 10: pe->set_ep((u32)v); m.ep = (u32)v; break; case 11: pe->set_base_of_code((u32)v); m.bcode = (u32)v; break;
            case 12: pe->set_image_base((u32)v); m.base = (u32)v; break; case 13: pe->set_image_base_64(v); m.base = m.w(v); break;
            case 14: pe->set_heap_size_reserve((u32)v); m.hres = (u32)v; break; case 15: pe->set_heap_size_reserve(v); m.hres = m.w(v); break;
            case 16: pe->set_heap_size_commit((u32)v); m.hcom = (u32)v; break; case 17: pe->set_heap_size_commit(v); m.hcom = m.w(v); break;
            case 18: pe->set_stack_size_reserve((u32)v); m.sres = (u32)v; break; case 19: pe->set_stack_size_reserve(v); m.sres = m.w(v); break;
            case 20: pe->set_stack_size_commit((u32)v); m.scom = (u32)v; break; default: pe->set_stack_size_commit(v); m.scom = m.w(v); break;
            }
            CHECK(pe->check_characteristics_flag((u16)v) == ((m.chars & (u16)v) != 0), "hdr.flag", "check_characteristics_flag");
            break;
        }
        case 1:
        {
            u32 i = (u32)g.below(18); u32 v = g.chance(1, 3) ? 0 : g.u32any(); bool rv = g.flip(); d << (rv ? "set_directory_rva " : "set_directory_size ") << i << " " << hx(v);
            bool t = throws_pe([&] { if(rv) pe->set_directory_rva(i, v); else pe->set_directory_size(i, v); });
            CHECK(t == (i >= m.n), "dir.set.bounds", d.str() << " of " << m.n << (t ? " refused" : " accepted")); if(!t) (rv ? m.d[i].first : m.d[i].second) = v; break;
        }
        case 2:
        {
            u32 i = g.chance(1, 3) ? g.pick({0u, 5u}) : (u32)g.below(18); d << "remove_directory " << i; pe->remove_directory(i);
            if(i < m.n && m.d[i].first) { m.d[i] = {0, 0}; if(i == 5) { m.chars |= 1; m.dllchars &= ~0x40; } if(i == 0) m.chars &= ~0x2000; } break;
        }
        case 3:
        {
            u32 c = (u32)g.below(18); bool iat = g.flip(); d << "strip_data_directories " << c << " iat=" << iat; u32 want = m.n; while(want > c && want > 0 && (!m.d[want - 1].first || (want - 1 == 12 && iat))) --want;
            u32 r = pe->strip_data_directories(c, iat); CHECK(r == want, "dir.strip", d.str() << " left " << r << " instead of " << want << " of " << m.n); m.n = want; g.label("stripped directories"); break;
        }
        case 4:
        {
            u32 c = (u32)g.below(17); d << "set_number_of_rvas_and_sizes " << c; u32 old = m.n; pe->set_number_of_rvas_and_sizes(c); m.n = c;
            for(u32 i = old; i < c; ++i) m.d[i] = {pe->get_directory_rva(i), pe->get_directory_size(i)}; break;
        }
        case 5:
        {
            unsigned w = (unsigned)g.below(4); d << "stub op " << w; if(w == 0) { pe->strip_stub_overlay(); m.stub.clear(); } else if(w == 1) { char c = (char)g.below(256); pe->fill_stub_overlay(c); m.stub.assign(m.stub.size(), c); } else if(w == 2) { m.stub = g.bytes((size_t)g.below(700)); pe->set_stub_overlay(m.stub); }
            else { int i = (int)g.range(1, 28); u16 v = g.u16any(); ((u16*)&pe->get_dos_header())[i] = v; m.dos[i] = v; } break;
        }
        case 6: { d << "copy"; g.label("copies"); if(snaps.size() && g.chance(1, 2)) { d << " over an older copy"; Snap& s = snaps[(size_t)g.below(snaps.size())]; if(g.flip()) { *s.pe = *pe; s.m = m; } else { *pe = *s.pe; m = s.m; } compare(*s.pe, s.m, d.str()); break; } Snap s; s.m = m; unsigned w = (unsigned)g.below(3); if(w == 0) s.pe.reset(new pe_base(*pe)); else { if(w == 1) s.pe.reset(new pe_base(pe_properties_32())); else s.pe.reset(new pe_base(pe_properties_64())); *s.pe = *pe; } if(g.flip()) std::swap(s.pe, pe); snaps.push_back(std::move(s)); break; }
        case 7: { d << "self-assign"; pe_base& r = *pe; *pe = r; break; }
        default: // save and reload
        {
            d << "save and reload"; g.label("save and reload"); Str out; try { out = rebuilt(*pe, false, true, false); } catch(const pe_exception& e) { fail("hdr.save", d.str() + " refused: " + e.what()); }
            Img r; Str why; CHECK(parse(out, r, why), "hdr.save", d.str() << ": " << why); m.stub.resize(up(m.stub.size(), 4), 0);
            M f; from_file(f, r); u32 keep = m.n; for(u32 i = keep; i < 16; ++i) m.d[i] = {0, 0};
            CHECK(f.n == keep, "hdr.file.dirs", d.str() << ": the file has " << f.n << " directories instead of " << keep); compare(*pe, [&] { M x = m; x.stub = pe->get_stub_overlay(); return x; }(), "saving");
            try { pe = load(out, r.p64, false, false); } catch(const pe_exception& e) { fail("hdr.reload", e.what()); }
            CHECK(f.p64 == m.p64, "hdr.file", "PE type changed"); compare(*pe, f, "reloading"); break;
        }
        }
        if(op < 6) ++edits;
        g.note(d.str()); compare(*pe, m, d.str());
    }
    if(edits) g.nontrivial();
    for(auto& s : snaps) compare(*s.pe, s.m, "editing a copy");
}
const pbt::PropInfo pbt::prop_info = {"C07", "Histories of up to 30 header, DOS stub and data-directory edits, copies, self-assignments and save/reload steps on generated images against a field model. Non-trivial: at least one edit.", run, 40000, 1200000, 0, 0, 20};
