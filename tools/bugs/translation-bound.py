prop='C01'
needs='version information whose translation list is longer than what is left of the resource data'
breaks='the reader reads behind the resource data'
edits=[('resource_version_info_reader.cpp', 'if(resource_data.length() < value_pos + var_table->ValueLength)', 'if(resource_data.length() < value_pos + sizeof(uint16_t) * 2)')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    file_version_info fi; lang_string_values_map m; translation_values_map t; t.insert(std::make_pair((uint16_t)1033, (uint16_t)1200)); resource_directory root; pe_resource_manager rm(root); resource_version_info_writer(rm).set_version_info(fi, m, t, 1033);
    pe_resource_viewer v(root); std::string d = v.get_resource_data_by_id(1033, pe_resource_viewer::resource_version, 1).get_data(); std::string x; for(const char* p = "Translation"; *p; ++p) { x += *p; x += '\0'; } size_t at = d.find(x); if(at == std::string::npos) return 3;
    put16(d, at - 4, 4000); put16(d, at - 6, 4032); d.shrink_to_fit(); rm.add_resource(d, pe_resource_viewer::resource_version, 1, 1033);
    try { lang_string_values_map a; translation_values_map b; resource_version_info_reader(v).get_version_info_by_lang(a, b, 1033); } catch(const pe_exception&) { return 0; } return 1;
}
'''
