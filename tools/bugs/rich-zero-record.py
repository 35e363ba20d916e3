prop='C25'
needs='a Rich header with a record of product 0 and version 0 that is not the last'
breaks='the records behind it are lost'
edits=[('pe_rich_data.cpp', '                begin += sizeof(uint32_t);\n                data.set_times(', '                //Padding follows the last structure\n                if(!data.get_number() && !data.get_version())\n                    break;\n\n                begin += sizeof(uint32_t);\n                data.set_times(')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); const uint32_t k = 0x12345678; uint32_t v[] = {0x536e6144, 0, 0, 0, 0x00010002, 3, 0, 7, 0x00050006, 9}; std::string o; for(uint32_t x : v) put32(o, o.size(), x ^ k); put32(o, o.size(), 0x68636952); put32(o, o.size(), k);
    pe.set_stub_overlay(o); rich_data_list l = get_rich_data(pe); return l.size() == 3 && l[2].get_number() == 5 && l[2].get_times() == 9 ? 0 : 1;
}
'''
