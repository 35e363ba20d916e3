prop='C09'
needs='more than about three thousand imported libraries'
breaks='less room is made for the descriptors than they take'
edits=[('pe_imports.cpp', '    needed_size += static_cast<uint32_t>((1 /* ending null descriptor */ + imports.size())', '    needed_size += static_cast<uint16_t>((1 /* ending null descriptor */ + imports.size())')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".i", "x"); imported_functions_list l; for(int i = 0; i < 3400; ++i) { import_library x; x.set_name("a.dll"); imported_function f; f.set_ordinal(1); x.add_import(f); l.push_back(x); }
    import_rebuilder_settings st; image_directory d = rebuild_imports(pe, l, s, st); return d.get_size() >= 3401 * 20 && s.get_raw_data().size() >= d.get_rva() - s.get_virtual_address() + 3401 * 20 ? 0 : 1;
}
'''
