// Property-based testing engine: every random decision of a case is one entry of a
// recorded choice sequence, so that any failure can be replayed, shrunk and mutated.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <stdexcept>

namespace pbt
{
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};
u64 mix(u64 a, u64 b);

struct Discard {};
struct Failure { std::string sig, msg; };

class Gen
{
public:
    //--- drawing -------------------------------------------------------------
    u64 raw(u64 n);                    // [0,n), n==0: any 64-bit value. 0 is the simplest value
    u64 below(u64 n) { return n <= 1 ? 0 : raw(n); }
    u64 range(u64 lo, u64 hi) { return lo + (hi - lo == ~0ull ? raw(0) : below(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // 0 -> false
    bool flip() { return below(2) != 0; }
    u64 edge(u64 lo, u64 hi);          // boundary-biased integer in [lo,hi]
    u64 small(u64 max);                // skewed to small values, still reaching max
    u32 u32any() { return (u32)again(0xffffffffull); }
    u16 u16any() { return (u16)again(0xffffu); }
    u64 u64any() { return again(~0ull); }
    u64 again(u64 hi)                  // any value, sometimes one drawn shortly before
    {
        if(drawn_ && chance(1, 10)) return last_[below(std::min(drawn_, 4u))] & hi;
        for(int i = 3; i; --i) last_[i] = last_[i - 1];
        ++drawn_; return last_[0] = edge(0, hi);
    }
    u64 last_[4] = {0, 0, 0, 0}; unsigned drawn_ = 0;
    unsigned weighted(std::initializer_list<unsigned> w); // index; first index is the simplest
    template<class T> const T& pick(const std::vector<T>& v) { return v[(size_t)below(v.size())]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    std::string bytes(size_t n);       // n bytes from one choice (0: a counting pattern)
    std::string name(size_t minlen, size_t maxlen); // printable ASCII identifier-like
    std::string text(size_t minlen, size_t maxlen); // printable ASCII incl. punctuation

    //--- reporting -----------------------------------------------------------
    void label(const std::string& l);
    void nontrivial() { nontrivial_ = true; }
    void note(const std::string& s);   // adds a line to the description of this case
    bool want_notes() const { return true; }
    [[noreturn]] void discard() { throw Discard(); }

    // internal
    struct Impl; Impl* impl = nullptr;
    bool nontrivial_ = false;
};

[[noreturn]] void fail(const std::string& sig, const std::string& msg);

struct PropInfo
{
    const char* id;
    const char* rule;                  // how cases are made and what makes one non-trivial
    void (*run)(Gen&);
    u64 quick_cases, thorough_cases;
    unsigned guided_percent;           // share of cases mutated from a coverage-guided corpus
    u64 alloc_limit;                   // a single allocation above this throws std::bad_alloc (0 = default)
    unsigned case_cpu_s;               // CPU seconds after which one case counts as not terminating
};
extern const PropInfo prop_info;
void set_alloc_limit(u64 bytes);
u64 take_refused();                // the largest allocation refused since the last call, 0 if none
u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull);
std::string hex(const std::string& s, size_t max = 64);
std::string hx(u64 v);

template<class A> std::string show(const A& a) { std::ostringstream o; o << a; return o.str(); }
template<> inline std::string show(const std::string& a) { return "\"" + hex(a) + "\"(" + std::to_string(a.size()) + ")"; }
template<> inline std::string show(const u8& a) { return std::to_string((unsigned)a); }
}

#define CHECK(cond, sig, msg) do { if(!(cond)) { std::ostringstream o_; o_ << msg; pbt::fail(sig, o_.str()); } } while(0)
#define CHECK_EQ(actual, expected, sig) do { const auto a_ = (actual); const auto e_ = (expected); if(!(a_ == e_)) { \
    pbt::fail(sig, std::string(#actual) + ": got " + pbt::show(a_) + ", expected " + pbt::show(e_)); } } while(0)
