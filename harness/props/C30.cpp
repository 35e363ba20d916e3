// C30: the helper functions which everything else rests on have their defined results for every argument.
#include "gen_pe.h"
#include "utils.h"
using namespace ref;
typedef pe_bliss::pe_utils U;

template<class T> static void aligning(Gen& g, const char* t)
{
    u32 a = 1u << g.below(32); u64 top = (sizeof(T) == 4 ? 0xffffffffull : ~0ull); T x = (T)(g.chance(1, 3) ? g.u64any() : g.edge(0, 4) * a + g.below(5) - 2); if((u64)x > top - a) x = (T)(x - a); u64 lo = (u64)x / a * a, hi = (u64)x % a ? lo + a : lo;
    g.note(Str("align ") + t + " " + hx((u64)x) + " to " + hx(a)); CHECK(U::align_down(x, a) == (T)lo, "helper.align_down", "align_down(" << hx((u64)x) << ", " << hx(a) << ") is " << hx((u64)U::align_down(x, a))); CHECK(U::align_up(x, a) == (T)hi, "helper.align_up", "align_up(" << hx((u64)x) << ", " << hx(a) << ") is " << hx((u64)U::align_up(x, a)));
}
template<class C> static void strings(Gen& g)
{
    size_t n = (size_t)g.below(12); std::basic_string<C> s; for(size_t i = 0; i < n; ++i) s.push_back((C)(g.flip() ? 0 : g.edge(1, sizeof(C) == 1 ? 255 : 0xffff))); g.note("string of " + std::to_string(n) + " characters of " + std::to_string(sizeof(C)) + " bytes");
    // terminated anywhere inside the given number of bytes; nothing beyond may be read
    size_t bytes = n * sizeof(C) + (size_t)g.below(sizeof(C)), have = std::min<size_t>(bytes, (size_t)g.below(bytes + 1)); std::unique_ptr<C[]> exact(new C[n + 1]); for(size_t i = 0; i < n; ++i) exact[i] = s[i]; exact[n] = (C)1; bool want = false; for(size_t i = 0; i < have / sizeof(C) && i < n; ++i) if(!s[i]) want = true;
    CHECK(U::is_null_terminated(exact.get(), have) == want, "helper.terminated", "is_null_terminated of " << n << " characters in " << have << " bytes is " << !want);
    std::unique_ptr<C[]> tight(new C[have / sizeof(C)]); for(size_t i = 0; i < have / sizeof(C); ++i) tight[i] = i < n ? s[i] : (C)1; CHECK(U::is_null_terminated(tight.get(), have) == want, "helper.terminated", "is_null_terminated of a tight buffer is " << !want);
    std::basic_string<C> w = s, r = s; while(!w.empty() && !w.back()) w.pop_back(); U::strip_nullbytes(r); CHECK(r == w, "helper.strip", "strip_nullbytes leaves " << r.size() << " of " << s.size() << " characters, expected " << w.size());
}
// every string either keeps all its characters or is refused; strings of the basic plane without surrogates are never refused
static void conversion(Gen& g)
{
    size_t n = (size_t)g.small(40); std::wstring w; u16string u; bool plain = true, wide = false; bool odd = g.chance(1, 4);
    for(size_t i = 0; i < n; ++i) { u32 c; switch(g.below(odd ? 6 : 4)) { case 0: c = (u32)g.range(1, 127); break; case 1: c = (u32)g.edge(0, 0xd7ff); break; case 2: c = g.chance(1, 4) ? (g.flip() ? 0xfeff : 0xfffe) : (u32)g.edge(0xe000, 0xffff); break; case 3: c = 0; break; case 4: c = (u32)g.edge(0xd800, 0xdfff); plain = false; break; default: c = (u32)g.edge(0x10000, 0x10ffff); plain = false; wide = true; break; } w.push_back((wchar_t)c); u.push_back((unicode16_t)c); }
    if(n && g.chance(1, 300)) { while(w.size() < 70000) { w += w; u += u; } n = w.size(); g.label("very long text"); }
    g.note("conversion of " + std::to_string(n) + " characters" + (plain ? "" : " with surrogates or beyond the basic plane")); if(n) g.nontrivial(); g.label(plain ? "conversion" : "conversion of odd characters");
    u16string a; std::wstring b; bool ra = throws_pe([&] { a = U::to_ucs2(w); });
    CHECK(!(plain && ra), "helper.to_ucs2", "a string of " << n << " characters of the basic plane was refused"); CHECK(!wide || ra, "helper.to_ucs2", "a character beyond the basic plane was converted to one of 16 bits"); if(!ra) CHECK(a == u, "helper.to_ucs2", "to_ucs2 changed a string of " << n << " characters into one of " << a.size());
    if(!wide) { bool rb = throws_pe([&] { b = U::from_ucs2(u); }); CHECK(!(plain && rb), "helper.from_ucs2", "a string of " << n << " characters of the basic plane was refused"); if(!rb) CHECK(b == w, "helper.from_ucs2", "from_ucs2 changed a string of " << n << " characters into one of " << b.size()); }
}
static void run(Gen& g)
{
    switch(g.weighted({2, 1, 1, 3, 6, 3, 1}))
    {
    case 0: { g.nontrivial(); g.label("alignment"); switch(g.below(3)) { case 0: return aligning<u32>(g, "u32"); case 1: return aligning<u64>(g, "u64"); default: return aligning<size_t>(g, "size_t"); } }
    case 1: { u64 x = g.flip() ? (1ull << g.below(64)) + g.below(3) - 1 : g.u64any(); if(!x) x = 1; bool want = __builtin_popcountll(x) == 1; g.note("power of two " + hx(x)); g.nontrivial(); g.label("power of two"); CHECK(U::is_power_of_2(x) == want, "helper.power", "is_power_of_2(" << hx(x) << ") is " << !want); u32 y = (u32)x; if(y) CHECK(U::is_power_of_2(y) == (__builtin_popcount(y) == 1), "helper.power", "is_power_of_2(" << hx(y) << ") is wrong"); return; }
    case 2: { u32 a = g.u32any(), b = g.flip() ? (u32)(0u - a + (u32)g.below(3) - 1) : g.u32any(); bool want = (u64)a + b <= 0xffffffffull; g.note("sum " + hx(a) + "+" + hx(b)); g.nontrivial(); g.label("sum"); CHECK(U::is_sum_safe(a, b) == want, "helper.sum", "is_sum_safe(" << hx(a) << ", " << hx(b) << ") is " << !want); return; }
    case 3: { g.nontrivial(); g.label("strings"); switch(g.below(3)) { case 0: return strings<char>(g); case 1: return strings<wchar_t>(g); default: return strings<unicode16_t>(g); } }
    case 4: return conversion(g);
    case 5:
    {   // GUIDs are equal exactly when all their bytes are
        Str a = g.bytes(16), b = a; if(g.chance(3, 4)) { b[(size_t)g.below(16)] ^= (char)(1 << g.below(8)); if(g.chance(1, 4)) b[(size_t)g.below(16)] ^= (char)g.range(1, 255); } pe_win::guid x, y; CHECK_EQ(sizeof x, (size_t)16, "helper.guid"); memcpy(&x, a.data(), 16); memcpy(&y, b.data(), 16); g.note("guid"); g.nontrivial(); g.label("guid"); CHECK((x == y) == (a == b), "helper.guid", "GUIDs " << hex(a) << " and " << hex(b) << " compare " << (x == y ? "equal" : "different")); return;
    }
    default:
    {   // the size of a stream is the number of its bytes, whatever the position, which is kept
        Str f = g.bytes(crowd(g, 3000, 200000)); std::istringstream is(f); size_t at = (size_t)g.below(f.size() + 1); is.seekg((std::streamoff)at); g.note("stream of " + std::to_string(f.size()) + " at " + std::to_string(at)); g.nontrivial(); g.label("stream"); CHECK_EQ((u64)U::get_file_size(is), (u64)f.size(), "helper.size"); CHECK_EQ((u64)is.tellg(), (u64)at, "helper.position"); return;
    }
    }
}
const pbt::PropInfo pbt::prop_info = {"C30", "Alignment, powers of two, safe sums, termination and stripping of strings of three character types in exact buffers, conversion between wide and UCS-2 strings of any characters, GUID comparison and stream sizes against direct definitions. Non-trivial: every case except empty strings.", run, 300000, 10000000, 0, 0, 20};
