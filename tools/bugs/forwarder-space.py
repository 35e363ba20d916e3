prop='C11'
needs='exports rebuilt into an inner section, with the room just missing'
breaks='the directory is written over the end of the section'
edits=[('pe_exports.cpp', 'pe_utils::align_up(exports_section.get_size_of_raw_data(), pe.get_file_alignment())', 'pe_utils::align_up(exports_section.get_size_of_raw_data() + 1, pe.get_file_alignment())')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); add(pe, ".e", std::string(0x200, 0)); add(pe, ".d", std::string(0x200, 'x')); section& s = pe.get_image_sections()[0]; export_info i; i.set_name("a.dll"); i.set_ordinal_base(1); exported_functions_list l; for(uint16_t k = 1; k <= 150; ++k) { exported_function f; f.set_ordinal(k); f.set_rva(0x1000); l.push_back(f); }
    try { rebuild_exports(pe, i, l, s); return 1; } catch(const pe_exception&) { return 0; }
}
'''
