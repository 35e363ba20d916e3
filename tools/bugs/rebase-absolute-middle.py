prop='C13'
needs='a relocation block with an ABSOLUTE entry which is not the last one'
breaks='the values behind it are not corrected'
edits=[('pe_relocations.cpp', '            if((*rel).get_type() == pe_win::image_rel_based_absolute)\n                continue;', '            if((*rel).get_type() == pe_win::image_rel_based_absolute)\n                break; //Padding of the table')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); std::string d(0x100, 0); put32(d, 0x10, pe.get_image_base_32() + 0x1000); section& s = add(pe, ".d", d); relocation_table t(s.get_virtual_address()); t.add_relocation(relocation_entry(0, 0)); t.add_relocation(relocation_entry(0x10, 3));
    uint32_t v = get32(d, 0x10); relocation_table_list l(1, t); rebase_image(pe, l, pe.get_image_base_32() + 0x10000); return get32(s.get_raw_data(), 0x10) == v + 0x10000 ? 0 : 1;
}
'''
