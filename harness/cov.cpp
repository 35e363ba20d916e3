// Coverage callback for -fsanitize-coverage=trace-pc (library objects only). Built without sanitizers.
#include <cstdint>
#include <cstring>
extern "C" char __executable_start;
unsigned char pbt_cov_map[1 << 16];
bool pbt_cov_on = false;
static uintptr_t prev_;
extern "C" void __sanitizer_cov_trace_pc()
{
    if(!pbt_cov_on) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
    uintptr_t h = (pc * 0x9E3779B1u) >> 7;
    unsigned char& c = pbt_cov_map[(h ^ prev_) & 0xffff];
    if(c != 255) ++c;
    prev_ = (h & 0xffff) >> 1;
}
void pbt_cov_reset() { memset(pbt_cov_map, 0, sizeof pbt_cov_map); prev_ = 0; }
