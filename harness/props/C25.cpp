// C25: the Rich header of the DOS stub is decoded exactly, wherever it lies and however it is cut.
#include "gen_pe.h"
using namespace ref;
struct Rec { u32 number, version, times; bool operator==(const Rec& o) const { return number == o.number && version == o.version && times == o.times; } };
static u32 at(const Str& s, size_t o) { return (u32)(u8)s[o] | (u32)(u8)s[o + 1] << 8 | (u32)(u8)s[o + 2] << 16 | (u32)(u8)s[o + 3] << 24; }
// What the stub means: "Rich" and the key end the header; "DanS" xor key, three paddings and the records come before it
static std::vector<Rec> decode(Gen& g, const Str& s)
{
    std::vector<Rec> v; size_t r = s.find("Rich"); if(r == Str::npos || r + 8 > s.size()) { if(r != Str::npos && s.find("Rich", r + 1) != Str::npos) g.discard(); return v; }
    if(s.find("Rich", r + 1) != Str::npos) g.discard(); u32 key = at(s, r + 4); Str d = le<u32>(0x536e6144 ^ key); size_t a = s.find(d); if(a == Str::npos || a + 16 > r) { if(a != Str::npos && a + 4 > r) return v; if(a != Str::npos && s.find(d, a + 1) != Str::npos) g.discard(); return v; }
    size_t b = s.find(d, a + 1); if(b != Str::npos && b < r) g.discard();
    for(size_t i = a + 16; i + 8 <= r; i += 8) v.push_back({(at(s, i) ^ key) >> 16, (at(s, i) ^ key) & 0xffff, at(s, i + 4) ^ key}); return v;
}
static std::vector<Rec> got(const pe_base& pe) { try { std::vector<Rec> v; for(const rich_data& d : get_rich_data(pe)) v.push_back({d.get_number(), d.get_version(), d.get_times()}); return v; } catch(const std::exception& e) { fail("rich.throws", Str("get_rich_data threw ") + e.what()); } }
static void same(const std::vector<Rec>& a, const std::vector<Rec>& b, const char* sig) { CHECK_EQ(a.size(), b.size(), sig); for(size_t i = 0; i < a.size(); ++i) CHECK(a[i] == b[i], sig, "record " << i << ": got " << a[i].number << "." << a[i].version << " x" << a[i].times << ", expected " << b[i].number << "." << b[i].version << " x" << b[i].times); }
static void run(Gen& g)
{
    Img m = host_img(g, (unsigned)g.range(0, 1), 1); u32 key = g.u32any(); std::vector<Rec> v(crowd(g, 20, 400)); const char* kind = "well-formed";
    Str pre = g.bytes((size_t)(g.flip() ? 16 * g.below(8) : g.below(130))), post = g.chance(1, 3) ? g.bytes((size_t)g.below(64)) : Str((size_t)g.below(17), 0), h = le<u32>(0x536e6144 ^ key) + le<u32>(key) + le<u32>(key) + le<u32>(key);
    for(Rec& r : v) { r.number = g.u16any(); r.version = g.u16any(); r.times = g.chance(1, 3) ? g.u32any() : (u32)g.below(300); h += le<u32>((r.number << 16 | r.version) ^ key) + le<u32>(r.times ^ key); }
    Str tail = Str("Rich") + le<u32>(key), stub;
    switch(g.weighted({6, 2, 1, 1, 1, 1, 1, 1}))
    {
    case 0: stub = pre + h + tail + post; break;
    case 1: stub = pre + h + tail; kind = "ends with its key"; break;
    case 2: stub = pre + h + tail.substr(0, 4 + (size_t)g.below(4)); kind = "without a complete key"; break;
    case 3: stub = pre + h + post; kind = "without an end"; break;
    case 4: stub = pre + h.substr(4) + tail + post; kind = "without a beginning"; break;
    case 5: stub = pre + h.substr(0, (size_t)g.below(h.size())) + tail + post; kind = "cut in the middle"; break;
    case 6: stub = pre + h + tail; stub.resize((size_t)g.below(stub.size() + 1)); kind = "stub cut off"; break;
    default: stub = pre + tail + h + post; kind = "beginning after the end"; break;
    }
    if(g.chance(1, 12)) { stub = g.flip() ? g.bytes((size_t)g.below(12)) : tail.substr(0, (size_t)g.below(9)); kind = "tiny stub"; }
    bool file = g.flip(); if(file) stub.resize(up(stub.size(), 4), 0);
    std::vector<Rec> want = decode(g, stub); if(kind[0] == 'w' && kind[1] == 'e') { if(!(want == v)) g.discard(); }
    g.note(Str(kind) + (file ? " (in the file)" : " (set)") + " stub of " + std::to_string(stub.size()) + " bytes, " + std::to_string(want.size()) + " of " + std::to_string(v.size()) + " records, key " + hx(key) + ": " + hex(stub, 300)); g.label(kind);
    Pe pe; if(file) { m.stub = stub; m.lfanew = 64 + (u32)stub.size(); u32 n = (u32)up(m.table_end(), m.falign); if(n > m.size_headers) { for(Sec& s : m.secs) s.rawptr += n - m.size_headers; m.size_headers = n; } }
    pe = must_load(write(m), m.p64, "rich.load"); if(file) CHECK(pe->get_stub_overlay() == stub, "rich.stub", "the stub differs from the file"); else pe->set_stub_overlay(Str(stub.data(), stub.size()));
    if(!want.empty() || !v.empty()) g.nontrivial(); same(got(*pe), want, "rich.read");
    if(m.secs.size() && stub.size() < 700 && g.chance(1, 4)) { Pe q = must_load(rebuilt(*pe), m.p64, "rich.reload"); Str s = stub; s.resize(up(s.size(), 4), 0); CHECK(q->get_stub_overlay() == s, "rich.saved-stub", "the saved stub differs"); same(got(*q), decode(g, s), "rich.saved"); g.label("saved"); }
    rich_data d; d.set_number(v.empty() ? 1 : v[0].number); d.set_version(7); d.set_times(key); CHECK(d.get_number() == (v.empty() ? 1 : v[0].number) && d.get_version() == 7 && d.get_times() == key, "rich.set", "a value which was set is not returned");
}
const pbt::PropInfo pbt::prop_info = {"C25", "DOS stubs with a Rich header of 0..20 records, any key, position, trailing bytes, cut at every point, without beginning, end or key, read from a file or set, decoded against a reference decoder (stubs with ambiguous markers are discarded). Non-trivial: at least one record.", run, 120000, 4000000, 0, 0, 20};
