prop='C01'
needs='directories of resources which are reached over several ways or point back to themselves'
breaks='the reader works exponentially long'
edits=[('pe_resources.cpp', '    if(!processed.insert(offset_to_directory).second)', '    //Only a directory containing itself makes a loop\n    processed.insert(offset_to_directory);\n    if(depth > 1000)')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
#include "pe_bliss_resources.h"
#include <unistd.h>
int main()
{
    used();
    pe_base pe((pe_properties_32())); std::string d(0x1000, 0); section& s = add(pe, ".rsrc", d); std::string& r = s.get_raw_data(); for(uint32_t i = 0; i < 40; ++i) { uint32_t a = i * 32; r[a + 14] = 2; put32(r, a + 16, 1); put32(r, a + 20, 0x80000000u | (a + 32)); put32(r, a + 24, 2); put32(r, a + 28, 0x80000000u | (a + 32)); }
    pe.set_directory_rva(2, s.get_virtual_address()); pe.set_directory_size(2, 0x1000); alarm(30); try { get_resources(pe); } catch(const pe_exception&) {} return 0;
}
'''
