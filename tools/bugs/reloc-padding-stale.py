prop='C12'
needs='tables with an odd number of relocations written over older data'
breaks='the padding entry keeps the old bytes and becomes a relocation'
edits=[('pe_relocations.cpp', '            memset(&raw_data[current_reloc_data_pos], 0, sizeof(uint16_t)); //Align it with IMAGE_REL_BASED_ABSOLUTE relocation\n', '')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".r", std::string(0x200, 0x33)); relocation_table t(0x1000); t.add_relocation(relocation_entry(0x10, 3)); relocation_table_list l(1, t); rebuild_relocations(pe, l, s, 0, true, false);
    relocation_table_list q = get_relocations(pe, true); return q.size() == 1 && q[0].get_relocations().at(1).get_type() == 0 ? 0 : 1;
}
'''
