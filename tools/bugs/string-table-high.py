prop='C19'
needs='a string table with an identifier of 2049 or more'
breaks='the identifiers of its strings wrap'
edits=[('resource_string_table_reader.cpp', '            ret.insert(\n                std::make_pair(static_cast<uint16_t>(((id - 1) << 4) + i), //ID of string is calculated such way\n                pe_utils::from_ucs2', '            ret.insert(\n                std::make_pair(static_cast<uint16_t>((((id - 1) & 0x7ff) << 4) + i), //ID of string is calculated such way\n                pe_utils::from_ucs2')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    resource_directory root; pe_resource_manager m(root); std::string d; for(int i = 0; i != 16; ++i) { put16(d, d.size(), 1); put16(d, d.size(), 'a' + i); }
    m.add_resource(d, pe_resource_viewer::resource_string, 2050, 0, 0, 0); resource_string_list l = resource_string_table_reader(m).get_string_table_by_id_lang(0, 2050); return l.size() == 16 && l.begin()->first == 2049 * 16 ? 0 : 1;
}
'''
