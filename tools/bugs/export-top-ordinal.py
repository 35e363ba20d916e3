prop='C10'
needs='a function exported by the highest possible ordinal 65535'
breaks='the whole export directory is refused'
edits=[('pe_exports.cpp', 'exports.Base + ordinal > pe_utils::max_word)', 'exports.Base + ordinal >= pe_utils::max_word)')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); std::string d(0x200, 0); section& s = add(pe, ".e", d); uint32_t v = s.get_virtual_address(); std::string& r = s.get_raw_data();
    put32(r, 12, v + 100); put32(r, 16, 65534); put32(r, 20, 2); put32(r, 28, v + 60); put32(r, 60, 0x5000); put32(r, 64, 0x6000); r[100] = 'a'; pe.set_directory_rva(0, v); pe.set_directory_size(0, 40);
    try { exported_functions_list l = get_exported_functions(pe); return l.size() == 2 && l[1].get_ordinal() == 65535 && l[1].get_rva() == 0x6000 ? 0 : 1; } catch(const pe_exception&) { return 1; }
}
'''
