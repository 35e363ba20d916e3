prop='C06'
needs='asking for the data length of an address in the headers with a position behind the headers'
breaks='the length wraps around to almost 4 GB'
edits=[('pe_base.cpp', 'if(include_headers && rva < full_headers_data_.length() && rva_inside < full_headers_data_.length())', 'if(include_headers && rva < full_headers_data_.length())')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base n((pe_properties_32())); add(n, ".a", std::string(0x200, 'a')); std::string f = saved(n); std::istringstream i(f); pe_base pe(i, pe_properties_32(), false);
    try { return pe.section_data_length_from_rva(0, (uint32_t)pe.get_full_headers_data().length() + 0x10, section_data_virtual, true) > 0x10000 ? 1 : 0; } catch(const pe_exception&) { return 0; }
}
'''
