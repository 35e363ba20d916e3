// C09: rebuilding imports from any list with any options gives tables which an independent reader decodes to that list.
#include "gen_pe.h"
using namespace ref;

struct F { bool named; Str name; u16 hint, ord; u64 iat; };
struct L { Str name; u32 ts = 0, iat = 0, oiat = 0; std::vector<F> f; bool old = false; u32 grow = 0; size_t had = 0; u64 iend = 0, oend = 0; }; // grow: functions which may be added without reaching other data; iend, oend: where the data holding the tables ends

static F gen_f(Gen& g, bool p64)
{
    F f; f.named = g.chance(3, 4); f.hint = f.ord = 0; if(f.named) { f.name = sym_name(g); f.hint = g.u16any(); } else f.ord = g.u16any();
    f.iat = p64 ? g.u64any() : g.u32any(); if(!f.iat) f.iat = 1; return f;
}
// reference reader
static std::vector<L> read(const Img& m, u32 dir)
{
    Mem r(m); std::vector<L> out; unsigned ps = m.p64 ? 8 : 4; u64 flag = m.p64 ? 1ull << 63 : 1u << 31;
    for(u32 d = dir;; d += 20)
    {
        u32 nm = r.r32(d + 12); if(!nm) return out;
        L l; l.name = r.z(nm); l.ts = r.r32(d + 4); l.oiat = r.r32(d); l.iat = r.r32(d + 16);
        for(u32 k = 0;; ++k)
        {
            u64 e = r.rptr((l.oiat ? l.oiat : l.iat) + k * ps), a = r.rptr(l.iat + k * ps); if(!e) break;
            F f; f.iat = a; f.named = !(e & flag); f.hint = f.ord = 0; if(f.named) { f.hint = r.r16((u32)e); f.name = r.z((u32)e + 2); } else f.ord = (u16)e; l.f.push_back(f);
        }
        out.push_back(l); if(out.size() > 20000) throw OutOfRange();
    }
}

static void run(Gen& g)
{
    unsigned ns = (unsigned)g.range(1, 3); Img m = host_img(g, ns, 3, -1, true, 0x7fe00000ull); unsigned ps = m.p64 ? 8 : 4; u64 flag = m.p64 ? 1ull << 63 : 1u << 31;
    Placer p(g, m); for(auto& f : p.free_) f.second -= 16;
    //--- existing imports
    std::vector<L> libs; bool build_orig = g.chance(3, 4), save = g.flip(), rewrite = save && g.flip(), fill = g.chance(1, 3); int tgt = (int)g.below(ns); std::set<u64> saved;
    if(g.chance(2, 3))
    {
        size_t n = (size_t)g.small(4); Str d; bool tightened = false;
        for(size_t i = 0; i < n; ++i)
        {
            L l; l.old = true; l.name = sym_name(g, 12); bool orig = g.chance(2, 3), bound = orig && build_orig && g.flip(); size_t nf = (size_t)g.small(6); Str look, iat; int tight = 0;
            int keep = ns > 1 ? (tgt + 1) % (int)ns : -1;     // what stays in place is away from the target area
            for(size_t k = 0; k < nf; ++k) { F f = gen_f(g, m.p64); u64 e = f.named ? p.place(le<u16>(f.hint) + f.name + Str(1, 0), 1, keep) : flag | f.ord; if(!bound) f.iat = e; look += leptr(e, m.p64); iat += leptr(f.iat, m.p64); l.f.push_back(f); }
            l.had = nf; look += Str(ps, 0); iat += Str(ps, 0);
            // a table at the very end of the section's data, where a longer list does not fit
            if(rewrite && keep >= 0 && !tightened && g.chance(1, 2)) { tight = orig ? (int)g.range(1, 2) : 1; tightened = true; l.grow = 3; g.label("a table at the end of the data"); }
            auto table = [&](const Str& t, bool at_end) -> u32
            {
                if(!l.grow) return p.place(t, ps, keep);
                if(!at_end) return p.place(t + Str(l.grow * ps, 0), ps, keep);
                Sec& q = m.secs[keep]; auto& fr = p.free_[keep]; u64 end = q.va + q.data.size(), size = t.size() + (g.flip() ? g.below(4) * ps : g.below(12)); if(end < fr.first + size || fr.second + 16 != end) g.discard(); // nothing else has been placed at the end
                u64 a = end - size; fr.second = std::min(fr.second, a); if(fr.second < fr.first) g.discard(); p.put((u32)a, t); return (u32)a;
            };
            l.iat = table(iat, tight == 1); l.oiat = orig ? table(look, tight == 2) : 0; if(l.grow) { u64 end = m.secs[keep].va + m.secs[keep].data.size(); l.iend = end; l.oend = orig ? end : 0; }
            for(u32 b = 0; b < look.size() + l.grow * ps; ++b) { saved.insert(l.iat + b); if(orig) saved.insert(l.oiat + b); }
            l.ts = g.chance(1, 4) ? g.u32any() : 0; d += le<u32>(l.oiat) + le<u32>(l.ts) + le<u32>(0) + le<u32>(p.placez(l.name)) + le<u32>(l.iat); libs.push_back(l);
        }
        d += Str(20, 0); u32 rva = p.place(d, 4); m.dirs[1] = {rva, (u32)d.size()};
    }
    bool had = !libs.empty() || m.dirs[1].first; if(g.chance(1, 3)) m.dirs[12] = {g.u32any(), g.u32any()};
    Str f0 = write(m); Pe pe = must_load(f0, m.p64, "impreb.load");
    imported_functions_list imp; try { imp = get_imported_functions(*pe); } catch(const pe_exception& e) { fail("impreb.read", e.what()); }
    CHECK_EQ(imp.size(), libs.size(), "impreb.read");
    if(save && ns == 1 && had && !libs.empty()) { save = rewrite = false; } // the target section would overwrite the saved tables
    //--- edit the list
    if(g.chance(1, 3)) { imp.clear(); libs.clear(); }
    if(!libs.empty() && g.chance(1, 4)) { size_t i = (size_t)g.below(libs.size()); libs.erase(libs.begin() + i); imp.erase(imp.begin() + i); }
    for(size_t i = 0; i < libs.size(); ++i) if(g.chance(1, 4)) { libs[i].name = sym_name(g, 12); libs[i].ts = g.u32any(); imp[i].set_name(libs[i].name); imp[i].set_timestamp(libs[i].ts); }
    auto set = [&](import_library& x, const L& l) { x.clear_imports(); for(auto& f : l.f) { imported_function y; y.set_iat_va(f.iat); if(f.named) { y.set_name(f.name); y.set_hint(f.hint); } else y.set_ordinal(f.ord); x.add_import(y); } };
    for(size_t i = 0; i < libs.size(); ++i) if((!save || rewrite) && g.chance(1, 3)) { size_t keep = (size_t)g.below(libs[i].f.size() + 1); std::vector<F> nf; for(size_t k = 0; k < keep; ++k) nf.push_back(g.flip() ? libs[i].f[k] : gen_f(g, m.p64)); libs[i].f = nf; set(imp[i], libs[i]); }
    for(size_t i = 0; i < libs.size(); ++i) if(libs[i].grow && g.chance(2, 3)) { for(u64 n = g.range(1, 3); n && libs[i].f.size() < 9; --n) { if(libs[i].f.size() >= libs[i].had + libs[i].grow) break; libs[i].f.push_back(gen_f(g, m.p64)); } set(imp[i], libs[i]); }
    bool crowd = g.chance(1, 150); size_t add = (size_t)(crowd ? g.chance(1, 20) ? g.range(3000, 4000) : g.range(200, 600) : g.small(4)); if(crowd) g.label(add >= 3000 ? "thousands of libraries" : "hundreds of libraries"); for(size_t i = 0; i < add; ++i)
    {
        L l; l.name = sym_name(g); l.ts = g.chance(1, 3) ? g.u32any() : 0; size_t n = (size_t)(crowd ? g.below(3) : g.chance(1, 250) ? g.chance(1, 30) ? g.range(8000, 18000) : g.range(200, 700) : g.chance(1, 40) ? g.range(30, 200) : g.small(8)); for(size_t k = 0; k < n; ++k) l.f.push_back(gen_f(g, m.p64));
        import_library x; x.set_name(l.name); x.set_timestamp(l.ts); set(x, l); if(g.chance(1, 6)) { x.set_rva_to_original_iat(!libs.empty() && libs[0].oiat && g.flip() ? libs[0].oiat : g.u32any()); g.label("only a lookup table RVA"); } size_t at = g.chance(1, 4) ? (size_t)g.below(libs.size() + 1) : libs.size(); libs.insert(libs.begin() + at, l); imp.insert(imp.begin() + at, x);
    }
    //--- settings
    import_rebuilder_settings st(g.chance(3, 4), g.flip()); u32 off = any_offset(g); st.set_offset_from_section_start(off);
    st.build_original_iat(build_orig); st.save_iat_and_original_iat_rvas(save, rewrite); st.fill_missing_original_iats(fill); st.enable_auto_strip_last_section(g.flip());
    section* s; int mode = (int)g.weighted({3, 4, 1}); size_t idx = (size_t)tgt; section loose;
    if(mode == 0) { section add_; add_.set_name(".imp"); if(g.flip()) add_.set_raw_data(g.bytes((size_t)g.range(1, 0x600))); else add_.get_raw_data().resize(1); pe->add_section(add_); idx = pe->get_image_sections().size() - 1; }
    s = &pe->get_image_sections()[idx]; if(mode == 2) { loose.set_raw_data(Str(0x10000, 0)); loose.set_virtual_address(0x1000); s = &loose; }
    bool last = idx + 1 == pe->get_image_sections().size();
    // what the structures take at least and at most
    u64 strings = 0, tables = 0; for(auto& l : libs) { strings += l.name.size() + 1; tables += (l.f.size() + 1) * ps; for(auto& f : l.f) if(f.named) strings += f.name.size() + 3; }
    u64 room = mode == 2 ? 0 : up(s->get_size_of_raw_data(), m.falign), lo = (libs.size() + 1) * 20 + strings; if(mode != 2) { off = fit_offset(g, off, room, lo + (g.flip() ? tables : 0) + (g.flip() ? tables : 0), last); st.set_offset_from_section_start(off); } u64 hi = lo + 2 * tables + 16 + off;
    std::vector<Str> before; for(auto& x : pe->get_image_sections()) before.push_back(x.get_raw_data());
    std::pair<u32, u32> d1(pe->get_directory_rva(1), pe->get_directory_size(1)), d12(pe->get_directory_rva(12), pe->get_directory_size(12));
    std::ostringstream o; o << describe(m) << " -> section " << idx << (last ? " (last)" : "") << (mode == 2 ? " unattached" : "") << " offset " << hx(off) << ": " << libs.size() << " libraries, build_original=" << build_orig << " save=" << save << " rewrite=" << rewrite << " fill=" << fill << " to_headers=" << st.auto_set_to_pe_headers() << " zero_iat=" << st.zero_directory_entry_iat() << " strip=" << st.auto_strip_last_section_enabled(); g.note(o.str());
    Str intact = whole(*pe); image_directory ret; bool thr = false; Str msg; try { ret = rebuild_imports(*pe, imp, *s, st); } catch(const pe_exception& e) { thr = true; msg = e.what(); } 
    if(mode == 2) { CHECK(thr, "impreb.unattached", "imports rebuilt into a section which is not part of the image"); g.label("unattached section"); g.nontrivial(); return; }
    bool may = false, must = false; for(auto& l : libs) if(rewrite && l.grow) { u64 need = (l.f.size() + 1) * ps; for(int k = 0; k < 2; ++k) { u64 at = k ? l.oiat : l.iat, end = k ? l.oend : l.iend; if(!at || (k && !build_orig)) continue; if(at + need >= end) may = true; if(at + need > up(end, m.falign)) must = true; } }
    if(thr && may) { g.label("saved table too small"); g.nontrivial(); return; }
    CHECK(!must, "impreb.overrun", "a list was written over a saved table which ends with its section's data");
    if(thr) { CHECK(whole(*pe) == intact, "impreb.refused-change", "the image was changed although the request was refused: " << msg); CHECK(!last, "impreb.refused", "refused to rebuild imports into the last section: " << msg); CHECK(room < hi, "impreb.refused", "refused to rebuild imports into a section with " << room << " bytes, at most " << hi << " are needed: " << msg); g.label("no room"); g.nontrivial(); return; }
    CHECK(last || room >= lo + off, "impreb.room", "imports of at least " << lo << " bytes accepted at offset " << off << " of a section of " << room << " bytes");
    for(size_t i = 0; i < before.size(); ++i)
    {   // nothing outside the area of the new directory changes
        const section& q = pe->get_image_sections()[i]; const Str& now = q.get_raw_data();
        for(size_t b = 0; b < std::max(before[i].size(), now.size()); ++b)
        {
            char x = b < before[i].size() ? before[i][b] : 0, y = b < now.size() ? now[b] : 0; if(x == y) continue;
            bool mine = i == idx && b >= off && b < hi; bool tab = rewrite && saved.count((u64)q.get_virtual_address() + b);
            CHECK(mine || tab, "impreb.clobber", "byte " << hx(b) << " of section " << i << " changed from " << (int)(u8)x << " to " << (int)(u8)y << ", the directory was to be built at " << hx(off) << ".." << hx(hi) << " of section " << idx);
        }
    }
    if(st.auto_set_to_pe_headers()) { CHECK_EQ(pe->get_directory_rva(1), ret.get_rva(), "impreb.header"); CHECK_EQ(pe->get_directory_size(1), ret.get_size(), "impreb.header"); }
    else { CHECK_EQ(pe->get_directory_rva(1), d1.first, "impreb.header.kept"); CHECK_EQ(pe->get_directory_size(1), d1.second, "impreb.header.kept"); }
    bool z = st.auto_set_to_pe_headers() && st.zero_directory_entry_iat(); CHECK_EQ(pe->get_directory_rva(12), z ? 0 : d12.first, "impreb.iat_entry"); CHECK_EQ(pe->get_directory_size(12), z ? 0 : d12.second, "impreb.iat_entry");
    CHECK(ret.get_size() >= (libs.size() + 1) * 20 && ret.get_rva() >= s->get_virtual_address() + off && ret.get_rva() + (libs.size() + 1) * 20 <= s->get_virtual_address() + up(s->get_virtual_size(), m.salign), "impreb.range", "returned directory range is outside the section");
    pe->set_directory_rva(1, ret.get_rva()); pe->set_directory_size(1, ret.get_size());
    Str out = rebuilt(*pe); Img r; Str why; CHECK(parse(out, r, why) && well_formed(r, out.size(), why), "impreb.file", why);
    std::vector<L> got; try { got = read(r, ret.get_rva()); } catch(const OutOfRange&) { fail("impreb.decode", "the rebuilt directory runs out of the image"); }
    CHECK_EQ(got.size(), libs.size(), "impreb.libs"); if(!libs.empty()) g.nontrivial();
    for(size_t i = 0; i < libs.size(); ++i)
    {
        const L& w = libs[i]; const L& x = got[i]; CHECK_EQ(x.name, w.name, "impreb.lib.name"); CHECK_EQ(x.ts, w.ts, "impreb.lib.timestamp");
        bool kept = save && w.iat; if(kept) { CHECK_EQ(x.iat, w.iat, "impreb.lib.iat"); if(build_orig && w.oiat) CHECK_EQ(x.oiat, w.oiat, "impreb.lib.oiat"); }
        if(!kept) CHECK(x.iat % ps == 0 && x.oiat % ps == 0, "impreb.align", "the tables of library " << i << " lie at " << hx(x.iat) << " and " << hx(x.oiat));
        bool has_orig = build_orig && (!kept || w.oiat || fill); CHECK((x.oiat != 0) == has_orig, "impreb.lib.lookup_table", "library " << i << (x.oiat ? " has a lookup table which was not requested" : " has no lookup table"));
        CHECK_EQ(x.f.size(), w.f.size(), "impreb.count");
        for(size_t k = 0; k < w.f.size(); ++k)
        {
            CHECK(x.f[k].named == w.f[k].named, "impreb.kind", "library " << i << " function " << k << ": by name/by ordinal confused");
            if(w.f[k].named) { CHECK_EQ(x.f[k].name, w.f[k].name, "impreb.name"); CHECK_EQ(x.f[k].hint, w.f[k].hint, "impreb.hint"); } else CHECK_EQ(x.f[k].ord, w.f[k].ord, "impreb.ordinal");
            if(has_orig || (kept && !rewrite)) { if(!(kept && !rewrite && !w.old)) CHECK_EQ(x.f[k].iat, w.f[k].iat, "impreb.iat"); }
        }
    }
    // and the library reads it back the same way
    imported_functions_list again; try { again = get_imported_functions(*must_load(out, m.p64, "impreb.reload")); } catch(const pe_exception& e) { fail("impreb.reread", std::string("the rebuilt directory cannot be read back: ") + e.what()); }
    CHECK_EQ(again.size(), libs.size(), "impreb.reread"); for(size_t i = 0; i < libs.size(); ++i) { CHECK_EQ(again[i].get_name(), libs[i].name, "impreb.reread"); CHECK_EQ(again[i].get_imported_functions().size(), libs[i].f.size(), "impreb.reread"); }
}
const pbt::PropInfo pbt::prop_info = {"C09", "Import lists (existing ones edited, new ones added) rebuilt into last, inner or new sections at any offset with every combination of table options; the result is decoded from the saved file by a reference reader and every other byte is compared. Non-trivial: a library in the list, or a refusal.", run, 60000, 2000000, 0, 0, 20};
