// C27: streams keep their position and exception mask, and a failing stream never yields a wrong result.
#include "gen_pe.h"
using namespace ref;
// An unbuffered stream whose fault-th operation (read, seek or write) fails, once or from then on
struct FaultBuf : std::streambuf
{
    Str data; size_t pos = 0; u64 ops = 0, fault = ~0ull; bool once = false, thrower = false, hit = false; bool out = false;
    bool bad() { u64 i = ops++; bool f = once ? i == fault : i >= fault; if(f) { hit = true; if(thrower) throw std::runtime_error("device error"); } return f; }
    std::streamsize xsgetn(char* s, std::streamsize n) override { if(bad()) return 0; size_t k = std::min<size_t>((size_t)n, pos < data.size() ? data.size() - pos : 0); memcpy(s, data.data() + pos, k); pos += k; return (std::streamsize)k; }
    int_type underflow() override { if(bad() || pos >= data.size()) return traits_type::eof(); return traits_type::to_int_type(data[pos]); }
    int_type uflow() override { if(bad() || pos >= data.size()) return traits_type::eof(); return traits_type::to_int_type(data[pos++]); }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override { if(bad()) return pos_type(off_type(-1)); off_type b = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (off_type)pos : (off_type)data.size(); if(b + o < 0) return pos_type(off_type(-1)); pos = (size_t)(b + o); return pos_type((off_type)pos); }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { if(bad()) return 0; put(s, (size_t)n); return n; }
    int_type overflow(int_type c) override { if(bad()) return traits_type::eof(); char x = (char)c; put(&x, 1); return c; }
    void put(const char* s, size_t n) { if(data.size() < pos + n) data.resize(pos + n); memcpy(&data[pos], s, n); pos += n; }
};
static std::ios_base::iostate gen_mask(Gen& g) { static const std::ios_base::iostate b[] = {std::ios::goodbit, std::ios::badbit, std::ios::failbit, std::ios::eofbit, std::ios::failbit | std::ios::badbit, std::ios::failbit | std::ios::eofbit | std::ios::badbit}; return b[g.below(6)]; }
// what the caller can see of a loaded image
static Str snapshot(pe_base& pe) { std::ostringstream o; o << pe.has_overlay() << pe.get_stub_overlay().size() << pe.get_stub_overlay() << Str((const char*)&pe.get_dos_header(), 64) << Str(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), pe.get_sizeof_nt_header()) << pe.get_full_headers_data(); for(auto& s : pe.get_image_sections()) o << Str((const char*)&s.get_raw_header(), 40) << s.get_raw_data().size() << s.get_raw_data(); return o.str(); }
struct Out { int kind = 0; Str what, value; };        // 0 result, 1 pe_exception, 2 another exception
template<class F> static Out attempt(F f) { Out o; try { o.value = f(); } catch(const pe_exception& e) { o.kind = 1; o.what = e.what(); } catch(const std::exception& e) { o.kind = 2; o.what = e.what(); } return o; }
static Str call(unsigned op, std::istream& is, bool p64, bool mem)
{
    switch(op)
    {
    case 0: { if(p64) { pe_base pe(is, pe_properties_64(), mem); return snapshot(pe); } pe_base pe(is, pe_properties_32(), mem); return snapshot(pe); }
    case 1: { pe_base pe = pe_factory::create_pe(is, mem); return snapshot(pe); }
    case 2: return show((int)pe_base::get_pe_type(is));
    case 3: return show(calculate_checksum(is));
    default: return show(entropy_calculator::calculate_entropy(is));
    }
}
static const char* opname[] = {"pe_base", "create_pe", "get_pe_type", "calculate_checksum", "calculate_entropy"};
static void input(Gen& g)
{
    GenOpt o; o.many_secs = false; o.high = true; Img m = gen_img(g, o); m.dirs[6] = {0, 0}; Str f = write(m); if(g.chance(1, 4)) { f.resize((size_t)g.below(f.size() + 1)); g.label("truncated file"); } else if(g.chance(1, 10)) { f = g.bytes((size_t)g.below(200)); g.label("junk file"); } else if(g.chance(1, 8)) f += g.bytes((size_t)g.range(1, 3));
    unsigned op = (unsigned)g.below(5); bool mem = op < 2 && g.chance(1, 8); std::ios_base::iostate mask = gen_mask(g); size_t start = g.chance(1, 4) ? (size_t)g.below(f.size() + 1) : 0;
    FaultBuf ref_buf; ref_buf.data = f; std::istream ris(&ref_buf); ris.seekg(start); u64 ops0 = ref_buf.ops; Out want = attempt([&] { return call(op, ris, m.p64, mem); }); u64 total = ref_buf.ops - ops0;
    CHECK(want.kind != 2, "stream.exception", opname[op] << " threw " << want.what);
    FaultBuf b; b.data = f; std::istream is(&b); is.seekg(start); is.exceptions(mask); bool fault = g.flip(); if(fault) { b.fault = b.ops + g.below(total ? total : 1); b.once = g.flip(); b.thrower = g.flip(); }
    g.note(Str(opname[op]) + (mem ? " (memory)" : "") + " from " + std::to_string(start) + " mask " + std::to_string((int)mask) + (fault ? " fault at operation " + std::to_string(b.fault) + " of " + std::to_string(total) + (b.once ? " once" : " persistent") + (b.thrower ? " throwing" : " failing") : "") + ", file of " + std::to_string(f.size()) + ", " + describe(m)); g.nontrivial();
    Out got = attempt([&] { return call(op, is, m.p64, mem); }); g.label(Str(opname[op]) + (fault ? " with a fault" : ""));
    if(!b.hit)
    {
        CHECK(got.kind == want.kind && got.value == want.value, "stream.mask", opname[op] << " behaves differently with exceptions enabled: " << (got.kind ? got.what : Str("result")) << " instead of " << (want.kind ? want.what : Str("result")));
        CHECK(is.exceptions() == mask, "stream.exceptions", "the exception mask of the stream was changed"); CHECK(is.rdstate() == 0, "stream.rdstate", "the stream is left in state " << (int)is.rdstate()); CHECK_EQ(b.pos, start, "stream.position"); return;
    }
    if(got.kind == 0) { CHECK(want.kind == 0 && got.value == want.value, "stream.fault", opname[op] << " returned a wrong result from a failing stream"); g.label("fault survived"); }
    else { CHECK(got.kind == 1 || mask != std::ios::goodbit || (b.thrower && got.what == "device error"), "stream.fault-exception", opname[op] << " threw " << got.what); g.label("fault reported"); }
    CHECK(is.exceptions() == mask, "stream.fault-mask", "the exception mask of the stream was changed");
}
static void output(Gen& g)
{
    GenOpt o; o.many_secs = false; o.high = true; Img m = gen_img(g, o); m.dirs[11] = {0, 0}; Pe pe = must_load(write(m), m.p64, "stream.load"); bool strip = g.chance(1, 6);
    Pe copy(new pe_base(*pe)); FaultBuf r; std::ostream ro(&r); Out want = attempt([&] { rebuild_pe(*copy, ro, strip); return Str(); }); CHECK(want.kind != 2, "stream.save-exception", "rebuild_pe threw " << want.what); if(want.kind == 0) { CHECK(ro.good(), "stream.save", "the output stream failed"); pe_base p2(*pe); std::ostringstream so(std::ios::binary | std::ios::out); rebuild_pe(p2, so, strip); CHECK(so.str() == r.data, "stream.save", "different bytes were written to another kind of stream"); }
    if(g.chance(1, 4))
    {   // the state the stream is in beforehand: a bad stream is refused, all others are put right
        FaultBuf b; std::ostream os(&b); int st = 1 + (int)g.below(7); std::ios::iostate set = std::ios::goodbit; if(st & 1) set |= std::ios::failbit; if(st & 2) set |= std::ios::eofbit; if(st & 4) set |= std::ios::badbit; os.setstate(set); g.note("rebuild_pe into a stream of state " + std::to_string((int)set) + "; " + describe(m)); g.nontrivial(); g.label("rebuild_pe into a stream of another state"); Out got = attempt([&] { rebuild_pe(*pe, os, strip); return Str(); });
        if(st & 4) { CHECK(got.kind == 1 && b.data.empty(), "stream.save-bad", "wrote to a bad stream"); return; }
        CHECK(got.kind == want.kind && (want.kind || (os.good() && b.data == r.data)), "stream.save-state", "rebuild_pe into a stream of state " << (int)set << " gave " << (got.kind ? got.what : "another file")); return;
    }
    FaultBuf b; std::ostream os(&b); b.fault = g.below(r.ops ? r.ops : 1); b.once = g.flip(); b.thrower = g.flip(); g.note("rebuild_pe" + Str(strip ? " stripped" : "") + ", fault at operation " + std::to_string(b.fault) + " of " + std::to_string(r.ops) + (b.once ? " once" : " persistent") + (b.thrower ? " throwing" : " failing") + "; " + describe(m)); g.nontrivial(); g.label("rebuild_pe with a fault");
    Out got = attempt([&] { rebuild_pe(*pe, os, strip); return Str(); }); CHECK(got.kind != 2 || (b.thrower && got.what == "device error"), "stream.save-fault-exception", "rebuild_pe threw " << got.what);
    // either the caller can see that the file is broken, or it is not
    if(got.kind == 0 && !os.fail()) { CHECK(want.kind == 0 && b.data == r.data, "stream.save-silent", "the file is broken, but the stream is good"); g.label("fault survived"); } else g.label("fault reported");
}
static void run(Gen& g) { if(g.weighted({4, 1})) output(g); else input(g); }
const pbt::PropInfo pbt::prop_info = {"C27", "Loading, type detection, checksum and entropy of valid, truncated and junk files from an unbuffered stream at any position with any exception mask, and saving to one; half of the cases (all for saving) inject a fault at a random read, seek or write: failing or throwing, once or from then on. Non-trivial: every case.", run, 60000, 2000000, 0, 0, 20};
