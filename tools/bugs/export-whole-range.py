prop='C11'
needs='exported functions whose ordinals reach from 0 to 65535'
breaks='the address table is as short as if there were no functions'
edits=[('pe_exports.cpp', 'const uint32_t number_of_functions = exports.empty()', 'const uint16_t number_of_functions = exports.empty()')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".e", "x"); export_info i; i.set_name("a.dll"); exported_functions_list l; exported_function a, b; a.set_ordinal(0); a.set_rva(0x1111); b.set_ordinal(65535); b.set_rva(0x2222); l.push_back(a); l.push_back(b);
    image_directory d = rebuild_exports(pe, i, l, s); return d.get_size() > 65536 * 4 && s.get_raw_data().size() > 65536 * 4 ? 0 : 1;
}
'''
