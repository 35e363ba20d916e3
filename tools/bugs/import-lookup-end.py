prop='C08'
needs='an import whose address table is longer than its name table'
breaks='the function behind the end of the name table is read from whatever follows'
edits=[('pe_imports.cpp', '                if (!lookup)\n                    break;', '                if (!lookup && lib.get_imported_functions().empty())\n                    break;')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); std::string d(0x200, 0); uint32_t v = 0x1000; put32(d, 0, v + 0x40); put32(d, 12, v + 0x100); put32(d, 16, v + 0x60); put32(d, 0x40, v + 0x110); put32(d, 0x60, 5); put32(d, 0x64, 6); d.replace(0x100, 5, "a.dll"); d.replace(0x112, 1, "f");
    section& s = add(pe, ".i", d); (void)s; pe.set_directory_rva(1, pe.get_image_sections()[0].get_virtual_address()); pe.set_directory_size(1, 40); if(pe.get_image_sections()[0].get_virtual_address() != v) return 2;
    try { imported_functions_list l = get_imported_functions(pe); return l.size() == 1 && l[0].get_imported_functions().size() == 1 ? 0 : 1; } catch(const pe_exception&) { return 1; }
}
'''
