prop='C22'
needs='bound imports whose ending null descriptor is the last thing of the data'
breaks='the directory is refused'
edits=[('pe_bound_import.cpp', '        if(current_pos + sizeof(image_bound_import_descriptor) > bound_import_data_len)', '        if(current_pos + sizeof(image_bound_import_descriptor) >= bound_import_data_len)')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); std::string d(0x1000, 0); uint32_t at = 0x1000 - 16 - 8; d.replace(at, 5, "a.dll"); put32(d, at + 8, 5); put16(d, at + 12, 1); put16(d, at + 14, 0); 
    at = 0x1000 - 16; d.assign(0x1000, 0); put32(d, at, 5); put16(d, at + 4, 6); put32(d, at + 8, 0); add(pe, ".b", d); pe.set_directory_rva(11, 0x1000 + at); pe.set_directory_size(11, 16);
    try { return get_bound_import_module_list(pe).size() == 1 ? 0 : 1; } catch(const pe_exception&) { return 1; }
}
'''
