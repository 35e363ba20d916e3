prop='C26'
needs='a file whose size is not a multiple of four'
breaks='bytes of the previous word are added for the missing bytes at the end'
edits=[('pe_checksum.cpp', '        for(int64_t i = 0; i < filesize; i += 4)\n        {\n            uint32_t dw = 0;\n', '        uint32_t dw = 0;\n        for(int64_t i = 0; i < filesize; i += 4)\n        {\n')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); add(pe, ".a", std::string(16, 'a')); std::string f = saved(pe) + "abcdefg";
    for(int n = 0; n != 4; ++n, f += 'z')
    {
        uint64_t sum = 0; std::string g = f; put32(g, get32(f, 0x3c) + 88, 0); for(size_t i = 0; i < g.size(); i += 2) sum += static_cast<unsigned char>(g[i]) + (i + 1 < g.size() ? static_cast<unsigned char>(g[i + 1]) << 8 : 0);
        while(sum >> 16) sum = (sum & 0xffff) + (sum >> 16);
        std::istringstream in(f); if(calculate_checksum(in) != static_cast<uint32_t>(sum + g.size())) return 1;
    }
    return 0;
}
'''
