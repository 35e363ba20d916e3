prop='C09'
needs='a 64-bit image, where the strings end so that the tables need 5 to 7 bytes of alignment'
breaks='the import tables are written beyond the end of the section data'
edits=[('pe_imports.cpp', 'needed_size += sizeof(typename PEClassType::BaseSize); //Maximum align for IAT and original IAT', 'needed_size += sizeof(uint32_t); //Maximum align for IAT and original IAT')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    for(size_t n = 1; n <= 16; ++n)
    {
        pe_base pe((pe_properties_64())); section& s = add(pe, ".i", std::string(1, 0)); imported_functions_list l; import_library lib; lib.set_name(std::string(n, 'l')); imported_function f; f.set_name("f"); f.set_iat_va(1); lib.add_import(f); l.push_back(lib);
        import_rebuilder_settings st; image_directory d = rebuild_imports(pe, l, s, st); if(d.get_rva() + d.get_size() < s.get_virtual_address() + s.get_raw_data().size()) return 1;
        imported_functions_list r = get_imported_functions(pe); if(r.size() != 1 || r[0].get_imported_functions().size() != 1 || r[0].get_imported_functions()[0].get_name() != "f") return 1;
    }
    return 0;
}
'''
