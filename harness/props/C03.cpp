// C03: rebuilding writes a well-formed file that loads back as the same image; rebuilding again is the identity.
#include "gen_pe.h"
using namespace ref;

static void run(Gen& g)
{
    GenOpt o; o.high = true; o.long_parts = true; o.raw_gt_virtual = g.chance(1, 4); Img m = gen_img(g, o);
    for(auto& s : m.secs) if(!s.rawsize && s.rawptr > 0x40000) s.rawptr %= 0x40000;
    int bound = 0; u32 boff = 0, bsize = 0; bool beyond = false;
    m.dirs[11] = std::make_pair(0u, 0u);
    if(m.ndirs > 11 && m.secs.size() && g.chance(1, 4))
    {
        if(g.flip())
        {   // bound imports in the headers, behind the section table
            bsize = (u32)g.range(1, 300); boff = m.table_end() + 4 * (u32)g.below(4); m.header_extra = Str(boff - m.table_end(), 0) + g.bytes(bsize);
            u32 need = boff + bsize; u32 hdr = (u32)up(need, m.falign);
            if(hdr > m.size_headers) { u32 d = hdr - m.size_headers; u32 va0 = m.secs[0].va; m.size_headers = hdr; for(auto& s : m.secs) if(s.rawsize) s.rawptr += d; if(va0 < hdr) { u32 dv = (u32)up(hdr - va0, m.salign); for(auto& s : m.secs) s.va += dv; m.size_image += dv; } }
            m.dirs[11] = std::make_pair(boff, bsize); bound = 1; g.label("bound imports in headers");
            if(g.chance(1, 4)) { beyond = true; m.dirs[11].second = m.size_headers - boff + (u32)g.edge(1, 0x10000000); g.label("bound imports beyond the headers"); }
        }
        else
        {
            for(auto& s : m.secs) if(s.rawsize > 8 && s.va >= m.size_headers && up(s.rawsize, m.falign) <= up(s.vsize, m.salign)) { u32 off = (u32)g.below(s.rawsize - 8); m.dirs[11] = std::make_pair(s.va + off, (u32)g.range(1, 8)); bound = 2; g.label("bound imports in a section"); break; }
        }
    }
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0);
    bool strip = g.chance(1, 5), hdrs = !g.chance(1, 5), save = bound != 1 || !g.chance(1, 6);
    if(!save) save = true;
    g.note(describe(m) + " strip=" + std::to_string(strip) + " change_headers=" + std::to_string(hdrs) + " bound=" + std::to_string(bound) + " " + hx(m.dirs[11].first) + "+" + hx(m.dirs[11].second));
    if(strip) g.label("DOS header stripped"); if(!hdrs) g.label("SizeOfHeaders kept");
    Pe pe = must_load(f, m.p64, "load"); Str stub = m.lfanew > 64 ? m.stub : Str();
    if(g.chance(1, 4)) { stub = g.bytes((size_t)g.small(300)); pe->set_stub_overlay(stub); g.note("set_stub_overlay: " + std::to_string(stub.size()) + " bytes"); if(stub.size() % 4) g.label("stub of unaligned length"); }
    std::vector<Str> datas; std::function<void(pe_base&)> edited = [](pe_base&) {}; for(auto& s : pe->get_image_sections()) datas.push_back(s.get_raw_data());
    if(!datas.empty() && g.chance(1, 8))
    {   // contents edited without recalculating the section: the file holds as many bytes as the section header says
        size_t i = (size_t)g.below(datas.size()); section& s = pe->get_image_sections()[i]; size_t have = datas[i].size(), len = (size_t)g.edge(0, have + (g.flip() ? 40 : 0x400)); Str d = datas[i]; d.resize(len, 0); if(len > have) d.replace(have, len - have, g.bytes(len - have)); bool set = g.flip(); edited = [=](pe_base& p) { section& t = p.get_image_sections()[i]; if(set) t.set_raw_data(d); else t.get_raw_data() = d; }; edited(*pe); d.resize(s.get_size_of_raw_data(), 0); datas[i] = d; g.note("section " + std::to_string(i) + " now has " + std::to_string(len) + " bytes, its header says " + hx(s.get_size_of_raw_data())); g.label(len > have ? "more data than SizeOfRawData" : "less data than SizeOfRawData");
    }
    Pe keep(new pe_base(*pe));
    Str out;
    u64 hneed = up((strip ? 16 : 64 + up(stub.size(), 4)) + 24 + m.opt_size() + 40 * m.secs.size() + (bound == 1 ? bsize : 0), m.falign);
    if(hneed > m.size_headers) hdrs = true;   // keeping a SizeOfHeaders that cannot hold the headers is the caller's mistake
    bool toolong = hdrs && m.secs.size() && hneed > m.secs[0].va;
    if(beyond) { bool thr = throws_pe([&] { rebuilt(*pe, strip, hdrs, true); }); CHECK(thr, "rebuild.bound-beyond", "saved a bound import directory of " << m.dirs[11].second << " bytes, which is not in the headers"); g.nontrivial(); return; }
    try { out = rebuilt(*pe, strip, hdrs, save); }
    catch(const pe_exception& e)
    {
        if(toolong)
        {   // a refused image can still be saved with a shorter DOS header, as if it had not been refused
            g.label("refused: headers too long"); if(strip) return; Str a, b; bool ta = throws_pe([&] { a = rebuilt(*keep, true, true, save); }), tb = throws_pe([&] { b = rebuilt(*pe, true, true, save); }); CHECK(ta == tb && a == b, "rebuild.after-refusal", "saving after a refusal gives another file (" << a.size() << " and " << b.size() << " bytes)"); if(!ta) g.label("saved after a refusal"); return;
        }
 fail("rebuild.throws", std::string("rebuild_pe refused a loaded image: ") + e.what()); }
    CHECK(!toolong, "rebuild.overlap", "rebuild_pe accepted headers that overlap the first section");
    if(m.secs.size()) g.nontrivial();
    Img r; Str why;
    CHECK(parse(out, r, why), "rebuild.unreadable", "rebuilt file is not a readable image: " << why);
    Img n = r; if(!hdrs) { for(auto& s : n.secs) s.data.clear(); n.size_headers = std::max(n.size_headers, n.table_end()); }
    if(hdrs || r.table_end() <= m.size_headers) CHECK(well_formed(hdrs ? r : n, out.size(), why), "rebuild.malformed", "rebuilt file breaks a layout rule: " << why);
    const char* S = "rebuild.header";
    CHECK_EQ(r.p64, m.p64, S); CHECK_EQ(r.machine, m.machine, S); CHECK_EQ(r.timestamp, m.timestamp, S); CHECK_EQ(r.symptr, m.symptr, S); CHECK_EQ(r.nsyms, m.nsyms, S); CHECK_EQ(r.chars, m.chars, S);
    CHECK_EQ(r.majl, m.majl, S); CHECK_EQ(r.minl, m.minl, S); CHECK_EQ(r.scode, m.scode, S); CHECK_EQ(r.sidata, m.sidata, S); CHECK_EQ(r.sudata, m.sudata, S); CHECK_EQ(r.ep, m.ep, S);
    if(!strip) CHECK_EQ(r.bcode, m.bcode, S); CHECK_EQ(r.bdata, m.bdata, S); CHECK_EQ(r.base, m.base, S); CHECK_EQ(r.salign, m.salign, S); CHECK_EQ(r.falign, m.falign, S);
    CHECK_EQ(r.majos, m.majos, S); CHECK_EQ(r.minos, m.minos, S); CHECK_EQ(r.majimg, m.majimg, S); CHECK_EQ(r.minimg, m.minimg, S); CHECK_EQ(r.majsub, m.majsub, S); CHECK_EQ(r.minsub, m.minsub, S); CHECK_EQ(r.win32ver, m.win32ver, S);
    CHECK_EQ(r.checksum, m.checksum, S); CHECK_EQ(r.subsystem, m.subsystem, S); CHECK_EQ(r.dllchars, m.dllchars, S); CHECK_EQ(r.sres, m.sres, S); CHECK_EQ(r.scom, m.scom, S); CHECK_EQ(r.hres, m.hres, S); CHECK_EQ(r.hcom, m.hcom, S); CHECK_EQ(r.loaderflags, m.loaderflags, S);
    CHECK_EQ(r.ndirs, std::min<u32>(m.ndirs, 16), S); CHECK_EQ(r.opt_extra, 0u, S);
    if(!hdrs) CHECK_EQ(r.size_headers, m.size_headers, S);
    for(u32 i = 0; i < r.ndirs; ++i)
    {
        if(i == 11 && bound == 1)
        {
            CHECK_EQ(r.dirs[i].second, bsize, "rebuild.bound"); CHECK(r.dirs[i].first >= r.table_end() && (u64)r.dirs[i].first + bsize <= up(r.dirs[i].first + bsize, m.falign), "rebuild.bound", "bound imports not behind the section table");
            CHECK_EQ(out.substr(r.dirs[i].first, bsize), f.substr(boff, bsize), "rebuild.bound");
            if(hdrs) CHECK(r.dirs[i].first + bsize <= r.size_headers, "rebuild.bound", "bound imports outside SizeOfHeaders");
        }
        else { CHECK_EQ(r.dirs[i].first, m.dirs[i].first, "rebuild.dir"); CHECK_EQ(r.dirs[i].second, m.dirs[i].second, "rebuild.dir"); }
    }
    for(int i = 0; i < (strip ? 8 : 30); ++i) CHECK(r.dos[i] == g16(f, i * 2), "rebuild.dos", "DOS header word " << i << " changed");
    if(!strip)
    {
        CHECK_EQ(r.lfanew, (u32)up(64 + stub.size(), 4), "rebuild.stub"); Str st = stub; st.resize(up(st.size(), 4), 0); CHECK_EQ(r.stub, st, "rebuild.stub");
    }
    CHECK_EQ(r.secs.size(), m.secs.size(), "rebuild.sections");
    for(size_t i = 0; i < r.secs.size(); ++i)
    {
        const Sec &a = r.secs[i], &b = m.secs[i];
        Str bn = b.name.substr(0, 8); while(bn.size() && !bn.back()) bn.pop_back();
        CHECK_EQ(a.name, bn, "rebuild.sections"); CHECK_EQ(a.vsize, b.vsize, "rebuild.sections"); CHECK_EQ(a.va, b.va, "rebuild.sections"); CHECK_EQ(a.chars, b.chars, "rebuild.sections");
        CHECK(a.relocptr == b.relocptr && a.lineptr == b.lineptr && a.nreloc == b.nreloc && a.nline == b.nline, "rebuild.sections", "section header field lost");
        CHECK(a.data == datas[i], "rebuild.data", "contents of section " << i << " changed by rebuilding (length " << datas[i].size() << " -> " << a.data.size() << ")");
    }
    // every byte which belongs to nothing is zero
    {
        std::vector<std::pair<size_t, size_t>> used; used.push_back({0, r.table_end()}); if(bound == 1) used.push_back({r.dirs[11].first, r.dirs[11].first + bsize}); for(auto& s : r.secs) if(s.rawsize) used.push_back({s.rawptr, s.rawptr + s.rawsize}); std::sort(used.begin(), used.end()); used.push_back({out.size(), out.size()}); size_t at = 0;
        for(auto& u : used) { for(size_t i = at; i < u.first; ++i) CHECK(i < out.size() && !out[i], "rebuild.gap", "byte " << hx(i) << " between the parts of the file is not zero"); at = std::max(at, u.second); }
    }
    // the rebuilt file loads, and rebuilding it (or the same object) again reproduces it
    Pe q = must_load(out, m.p64, "rebuild.reload");
    for(size_t i = 0; i < datas.size(); ++i) CHECK(q->get_image_sections()[i].get_raw_data() == datas[i], "rebuild.reload", "section " << i << " differs after reloading");
    CHECK(!q->has_overlay() , "rebuild.reload", "rebuilt file reports an overlay");
    Str again = rebuilt(*q, strip, hdrs, save);
    CHECK(again == out, "rebuild.idempotent", "rebuilding the rebuilt file changes it (" << out.size() << " -> " << again.size() << " bytes), first difference at " << hx(std::mismatch(out.begin(), out.begin() + std::min(out.size(), again.size()), again.begin()).first - out.begin()));
    {
        Str third = rebuilt(*pe, strip, hdrs, save); CHECK(third == out, "rebuild.repeat", "rebuilding the same object twice gives different files");
        Str fourth = rebuilt(*keep, strip, hdrs, save); CHECK(fourth == out, "rebuild.copy", "rebuilding a copy gives a different file");
        if(hdrs && bound == 1 && strip) { Pe k = must_load(f, m.p64, "load"); k->set_stub_overlay(stub); edited(*k); throws_pe([&] { rebuilt(*k, false, true, save); }); Str fifth = rebuilt(*k, strip, hdrs, save); CHECK(fifth == out, "rebuild.other-options", "saving with other options first gives a different file"); g.label("saved with other options first"); }
    }
}
const pbt::PropInfo pbt::prop_info = {"C03", "Generated images are loaded, rebuilt with random options (another DOS stub, DOS header stripping, SizeOfHeaders kept, bound imports in headers or in a section), parsed by the reference parser, compared, reloaded and rebuilt again. Non-trivial: at least one section.", run, 60000, 1500000, 0, 0, 20};
