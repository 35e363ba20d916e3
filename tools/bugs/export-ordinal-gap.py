prop='C11'
needs='exports with more than sixteen missing ordinals in a row written over non-zero bytes'
breaks='address table entries of missing ordinals keep old bytes and become functions'
edits=[('pe_exports.cpp', 'memset(&raw_data[current_pos_of_function_addresses], 0, len);', 'memset(&raw_data[current_pos_of_function_addresses], 0, std::min<uint32_t>(len, 64));')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".e", std::string(0x400, 'x')); export_info i; i.set_name("a.dll"); exported_functions_list l;
    for(uint16_t o = 1; o <= 31; o += 30) { exported_function f; f.set_ordinal(o); f.set_rva(0x1000 + o); l.push_back(f); }
    rebuild_exports(pe, i, l, s); return get_exported_functions(pe).size() == 2 ? 0 : 1;
}
'''
