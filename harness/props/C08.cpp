// C08: the import reader returns exactly the libraries and functions an image declares.
#include "gen_pe.h"
using namespace ref;

struct F { bool named; Str name; u16 hint, ord; u64 iat; };
struct L { Str name; u32 ts, iat, oiat; std::vector<F> f; };

static void run(Gen& g)
{
    bool huge = g.chance(1, 120), vast = huge && g.chance(1, 12); Img m = host_img(g, (unsigned)g.range(1, 3), vast ? 512 : huge ? 64 : 2, -1, true, 0x7fe00000ull); Placer p(g, m, true, true); unsigned ps = m.p64 ? 8 : 4; u64 flag = m.p64 ? 1ull << 63 : 1u << 31;
    std::vector<L> libs((size_t)(vast ? g.range(1, 2) : huge && g.flip() ? g.range(200, 600) : g.small(6))); if(huge) g.label("hundreds of libraries or functions"); std::vector<Str> desc; bool broken = g.chance(1, 8); Str why; size_t nf = 0;
    unsigned where = (unsigned)g.below(8); size_t badlib = libs.empty() ? 0 : (size_t)g.below(libs.size());
    for(size_t li = 0; li < libs.size(); ++li)
    {
        L& l = libs[li]; l.name = sym_name(g); l.ts = g.chance(1, 3) ? g.u32any() : 0; bool orig = g.chance(2, 3); bool bound = orig && g.chance(1, 2);
        size_t n = (size_t)(vast ? li ? 3 : g.range(4097, 9000) : huge ? (libs.size() > 10 ? g.below(3) : g.range(200, 700)) : g.chance(1, 60) ? g.range(50, 300) : g.small(12)); l.f.resize(n); Str look, iat; nf += n;
        for(F& f : l.f)
        {
            f.named = g.chance(3, 4); f.hint = 0; f.ord = 0; u64 e;
            if(f.named) { f.name = sym_name(g); f.hint = g.u16any(); e = p.place(le<u16>(f.hint) + f.name + Str(1, 0), g.flip() ? 2 : 1); }
            else { f.ord = g.u16any(); e = flag | f.ord; if(g.chance(1, 10)) e |= (u64)g.below(0x7fff) << 16; }
            f.iat = bound ? (m.p64 ? g.u64any() : g.u32any()) : e; if(!f.iat) f.iat = 1;
            look += leptr(e, m.p64); iat += leptr(f.iat, m.p64);
        }
        if(n && g.chance(1, 12) && orig)
        {   // one of the two tables ends early: the list ends there
            size_t keep = (size_t)g.below(n); bool first = g.flip(); (first ? look : iat).replace(keep * ps, ps, Str(ps, 0)); l.f.resize(keep); g.label("one table ends early");
        }
        look += Str(ps, 0); iat += Str(ps, 0);
        l.iat = p.place(iat, g.flip() ? ps : 1); l.oiat = orig ? p.place(look, g.flip() ? ps : 1) : 0; u32 nm = p.placez(l.name);
        if(broken && li == badlib)
        {   // one corruption which leaves the directory without a meaning
            switch(where)
            {
            case 0: nm = (u32)g.range(m.size_image + 0x100000ull, 0xfffffff0ull); why = "library name outside the image"; break;
            case 1: l.iat = (u32)g.range(m.size_image + 0x100000ull, 0xfffffff0ull); why = "IAT outside the image"; break;
            case 2: if(orig) { l.oiat = (u32)g.range(m.size_image + 0x100000ull, 0xfffffff0ull); why = "lookup table outside the image"; } break;
            case 3: if(!l.f.empty() && l.f[0].named) { u64 bad = g.flip() ? g.range(m.size_image + 0x100000ull, 0x7ffffff0) : (m.p64 ? g.range(0x100000000ull, 0x7fffffffffffffffull) : 0x7fffffff); p.put(orig ? l.oiat : l.iat, leptr(bad, m.p64)); why = "function name outside the image"; } break;
            case 4: { u32 at; if(g.flip()) { if(p.open_text(at)) { nm = at; why = "unterminated library name"; } } else if(!l.f.empty()) { size_t i = (size_t)g.below(l.f.size()); if(l.f[i].named && p.open_text(at)) { p.put((orig ? l.oiat : l.iat) + (u32)(ps * i), leptr(at - (g.flip() ? 2 : (u32)g.below(3)), m.p64)); why = "unterminated function name"; } } break; }
            default: break;
            }
        }
        desc.push_back(le<u32>(l.oiat) + le<u32>(l.ts) + le<u32>(g.chance(1, 4) ? g.u32any() : 0) + le<u32>(nm) + le<u32>(l.iat));
    }
    Str d; for(auto& x : desc) d += x;
    // the terminator only has to have no name
    Str term(20, 0); if(g.chance(1, 5)) { term = g.bytes(20); for(int i = 12; i < 16; ++i) term[i] = 0; }
    d += term; u32 rva = p.place(d, 4); bool has = true;
    m.dirs[1] = {rva, (u32)(g.chance(1, 4) ? g.u32any() : d.size())};
    if(why.empty()) { if(g.chance(1, 20)) { if(g.flip()) m.ndirs = (u32)g.below(2); else m.dirs[1].first = 0; has = false; g.label("no import directory"); } if(g.chance(1, 2)) p.trim(); }
    if(!has && m.ndirs < 2) { m.size_headers = (u32)up(m.table_end(), m.falign); }
    Str f = write(m); if(f.size() < m.size_headers) f.resize(m.size_headers, 0);
    std::ostringstream o; o << describe(m) << " imports at " << hx(rva) << ": " << libs.size() << " libraries, " << nf << " functions" << (why.empty() ? "" : ", " + why); g.note(o.str());
    Pe pe = must_load(f, m.p64, "import.load"); CHECK(pe->has_imports() == has, "import.has", "has_imports()");
    imported_functions_list r; bool thr = throws_pe([&] { r = get_imported_functions(*pe); });
    CHECK(thr == !why.empty(), "import.accept", (thr ? "a valid import directory was refused" : "accepted a directory with " + why));
    if(thr) { g.label("refused: " + why); g.nontrivial(); return; }
    if(!has) { CHECK(r.empty(), "import.none", "imports without a directory"); return; }
    CHECK_EQ(r.size(), libs.size(), "import.libs"); if(nf) g.nontrivial();
    for(size_t i = 0; i < libs.size(); ++i)
    {
        const L& w = libs[i]; const import_library& x = r[i];
        CHECK_EQ(x.get_name(), w.name, "import.lib.name"); CHECK_EQ(x.get_timestamp(), w.ts, "import.lib.timestamp"); CHECK_EQ(x.get_rva_to_iat(), w.iat, "import.lib.iat"); CHECK_EQ(x.get_rva_to_original_iat(), w.oiat, "import.lib.oiat");
        const auto& fs = x.get_imported_functions(); CHECK_EQ(fs.size(), w.f.size(), "import.count");
        for(size_t k = 0; k < fs.size(); ++k)
        {
            CHECK(fs[k].has_name() == w.f[k].named, "import.kind", "library " << i << " function " << k << ": by name/by ordinal confused");
            if(w.f[k].named) { CHECK_EQ(fs[k].get_name(), w.f[k].name, "import.name"); CHECK_EQ(fs[k].get_hint(), w.f[k].hint, "import.hint"); } else CHECK_EQ(fs[k].get_ordinal(), w.f[k].ord, "import.ordinal");
            CHECK_EQ(fs[k].get_iat_va(), w.f[k].iat, "import.iat");
        }
    }
}
const pbt::PropInfo pbt::prop_info = {"C08", "Images whose import tables (0..6 libraries, up to 300 functions, with or without lookup tables, bound or not, by name or ordinal, odd placements, terminators in zero fill) are laid out by the reference writer, and directories with one corruption. Non-trivial: at least one function, or a corruption.", run, 100000, 3000000, 0, 0, 20};
