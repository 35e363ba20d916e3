prop='C03'
needs='a DOS stub whose length is 1 or 2 more than a multiple of four'
breaks='the padding behind the stub is too short and the PE header is not where the DOS header says'
edits=[('pe_rebuilder.cpp', 'size_t aligned_size = pe_utils::align_up(stub.size(), sizeof(uint32_t));', 'size_t aligned_size = pe_utils::align_up(stub.size(), sizeof(uint16_t));')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    for(size_t n = 0; n != 9; ++n)
    {
        pe_base pe((pe_properties_32())); add(pe, ".a", std::string(16, 'a')); pe.set_stub_overlay(std::string(n, 's')); std::string f = saved(pe); uint32_t at = get32(f, 0x3c); if(at % 4 || get32(f, at) != 0x4550) return 1;
        std::istringstream in(f); pe_base q(pe_factory::create_pe(in)); if(q.get_image_sections().size() != 1 || q.get_image_sections()[0].get_raw_data()[0] != 'a') return 1;
    }
    return 0;
}
'''
