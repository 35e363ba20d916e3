// C26: the checksum is the one of the PE format, whatever the stored one; entropy is Shannon's, in bits per byte.
#include "gen_pe.h"
#include <cmath>
#include <algorithm>
using namespace ref;
// 16-bit one's complement sum of the file without its CheckSum field, plus the length
static u32 reference(Str f)
{
    u64 pos = (u64)((u8)f[60] | (u8)f[61] << 8 | (u8)f[62] << 16 | (u64)(u8)f[63] << 24) + 88; for(u64 i = pos; i < pos + 4 && i < f.size(); ++i) f[i] = 0;
    u32 sum = 0; for(size_t i = 0; i < f.size(); i += 2) { sum += (u8)f[i] | (i + 1 < f.size() ? (u8)f[i + 1] << 8 : 0); sum = (sum & 0xffff) + (sum >> 16); } return sum + (u32)f.size();
}
static void checksum(Gen& g)
{
    Str f; u32 lf; bool image = g.flip(); Img m;
    if(image) { GenOpt o; m = gen_img(g, o); m.dirs[11] = {0, 0}; if(g.flip()) m.overlay = g.bytes((size_t)g.below(70)); f = write(m); lf = m.lfanew; }
    else { size_t n = 64 + (size_t)(g.flip() ? g.below(40) : g.edge(0, 4096)); f = g.weighted({3, 1, 1}) == 0 ? g.bytes(n) : Str(n, g.flip() ? (char)0xff : 0); f[0] = 'M'; f[1] = 'Z'; lf = g.weighted({4, 2, 1}) == 0 ? (u32)g.below(n) & ~3u : g.flip() ? (u32)((n - std::min<size_t>(n, 88)) & ~3u) : (u32)g.edge(0, 0x7fffffff) & ~3u; p32(f, 60, lf); }
    if(!image && f.size() >= 128 && g.chance(1, 4))
    {   // 32-bit words which add up to exactly 2^32 at some place
        size_t at = 64 + 4 * (size_t)g.below((f.size() - 68) / 4); u64 s = 0; for(size_t i = 0; i < at; i += 4) { if(i == (size_t)lf + 88) continue; s += (u32)g32(f, i); s = (s & 0xffffffff) + (s >> 32); } if(at != (size_t)lf + 88) { p32(f, (u32)at, (u32)(0x100000000ull - s)); g.label("sum of exactly 2^32"); }
    }
    g.note(std::to_string(f.size()) + " bytes, e_lfanew " + hx(lf)); g.nontrivial(); u32 want = reference(f);
    std::istringstream is(f, std::ios::binary | std::ios::in); u32 got = 0; try { got = calculate_checksum(is); } catch(const std::exception& e) { fail("checksum.throws", Str("calculate_checksum threw ") + e.what()); }
    CHECK(got == want, "checksum.value", "got " << hx(got) << ", expected " << hx(want)); CHECK(is.good() && (size_t)is.tellg() == 0, "checksum.stream", "the stream is not where it was"); CHECK_EQ(calculate_checksum(is), want, "checksum.again");
    // the stored checksum does not count
    size_t pos = (size_t)lf + 88; if(pos + 4 <= f.size()) { Str h = f; p32(h, pos, g.u32any()); std::istringstream i2(h, std::ios::binary | std::ios::in); u32 c2 = calculate_checksum(i2); if(pos >= 64 || pos + 4 <= 60) { CHECK(c2 == want, "checksum.stored", "the stored checksum changes the calculated one: " << hx(c2) << " and " << hx(want)); g.label("stored checksum replaced"); } }
    if(image && !m.secs.empty() && m.lfanew >= 64 && g.chance(1, 3))
    {   // the usual way to set it: save, calculate, set, save
        Pe pe = must_load(f, m.p64, "checksum.load"); Str a = rebuilt(*pe); std::istringstream i3(a, std::ios::binary | std::ios::in); u32 c = calculate_checksum(i3); CHECK_EQ(c, reference(a), "checksum.saved"); pe->set_checksum(c); Str b = rebuilt(*pe); std::istringstream i4(b, std::ios::binary | std::ios::in); CHECK_EQ(calculate_checksum(i4), c, "checksum.set"); Pe q = must_load(b, m.p64, "checksum.reload"); CHECK_EQ(q->get_checksum(), c, "checksum.set"); g.label("saved with its checksum");
    }
    g.label("file size % 4 == " + std::to_string(f.size() % 4));
}
static double shannon(const Str& s) { double n[256] = {0}; for(char c : s) n[(u8)c] += 1; double r = 0; for(double k : n) if(k > 0) r -= k / (double)s.size() * std::log2(k / (double)s.size()); return r; }
static void near(double got, double want, const char* sig) { CHECK(std::fabs(got - want) < 1e-9 && got >= 0 && got < 8 + 1e-9, sig, "entropy is " << got << ", expected " << want); }
static Str data(Gen& g) { size_t n = (size_t)(throng(g, 300) ? g.range(0x10000, 0x180000) : g.flip() ? g.small(600) : g.edge(0, 5000)); switch(g.weighted({3, 2, 1, 1})) { case 0: return g.bytes(n); case 1: { Str s(n, 0); Str a = g.bytes((size_t)g.range(1, 9)); for(size_t i = 0; i < n; ++i) s[i] = a[i * i % a.size()]; return s; } case 2: return Str(n, (char)g.below(256)); default: { Str s; for(size_t i = 0; i < n; ++i) s += (char)i; return s; } } }
static void entropy(Gen& g)
{
    typedef entropy_calculator E; Str s = data(g); g.note(std::to_string(s.size()) + " bytes " + hex(s, 40)); if(s.size() > 1) g.nontrivial();
    switch(g.below(4))
    {
    case 0: { double d = -1; bool thr = throws_pe([&] { d = E::calculate_entropy(s.data(), s.size()); }); CHECK_EQ(thr, s.empty(), "entropy.buffer-empty"); if(thr) return; near(d, shannon(s), "entropy.buffer"); Str t = s; std::reverse(t.begin(), t.end()); near(E::calculate_entropy(t.data(), t.size()), d, "entropy.order"); t = s + s; near(E::calculate_entropy(t.data(), t.size()), d, "entropy.twice"); g.label("buffer"); break; }
    case 1: { size_t pos = (size_t)(g.flip() ? 0 : g.below(s.size() + 1)); std::istringstream is(s, std::ios::binary | std::ios::in); is.seekg(pos); double d = -1; bool thr = throws_pe([&] { d = E::calculate_entropy(is); }); CHECK_EQ(thr, pos == s.size(), "entropy.stream-empty"); if(thr) return; near(d, shannon(s.substr(pos)), "entropy.stream"); CHECK(is.good() && (size_t)is.tellg() == pos, "entropy.stream-state", "the stream is not where it was"); near(E::calculate_entropy(is), d, "entropy.stream-again"); g.label("stream"); break; }
    case 2: { section x; x.set_raw_data(s); double d = -1; bool thr = throws_pe([&] { d = E::calculate_entropy(x); }); CHECK_EQ(thr, s.empty(), "entropy.section-empty"); if(thr) return; near(d, shannon(s), "entropy.section"); CHECK(x.get_raw_data() == s, "entropy.changed", "the section was changed"); g.label("section"); break; }
    default:
        {
            GenOpt o; o.low_align = false; Img m = gen_img(g, o); g.note(describe(m)); Pe pe = must_load(write(m), m.p64, "entropy.load"); Str all; for(auto& x : pe->get_image_sections()) all += x.get_raw_data(); Str raw; for(Sec& x : m.secs) raw += x.data.substr(0, std::min<size_t>(x.data.size(), (size_t)up(x.vsize, m.salign))); if(all.empty()) return; near(E::calculate_entropy(*pe), shannon(all), "entropy.image");
            if(all.size() == raw.size()) near(shannon(raw), shannon(all), "entropy.image-data");
            if(g.flip()) { section& x = pe->get_image_sections()[(size_t)g.below(pe->get_image_sections().size())]; if(g.flip()) x.set_raw_data(data(g)); else x.get_raw_data() += g.bytes((size_t)g.below(40)); all.clear(); for(auto& y : pe->get_image_sections()) all += y.get_raw_data(); if(all.empty()) return; near(E::calculate_entropy(*pe), shannon(all), "entropy.image-edited"); g.label("edited image"); }
            g.nontrivial(); g.label("image"); break;
        }
    }
}
static void run(Gen& g) { if(g.weighted({1, 1})) entropy(g); else checksum(g); }
const pbt::PropInfo pbt::prop_info = {"C26", "Checksums of generated images and of arbitrary files with an MZ header (every size modulo 4, CheckSum field anywhere, also cut by the end of file), compared with a 16-bit reference sum, with the stored value replaced, and set in saved images; entropy of buffers, streams from any position, sections and images compared with a reference formula. Non-trivial: any checksum case, entropy of 2 bytes or more.", run, 40000, 1500000, 0, 0, 20};
