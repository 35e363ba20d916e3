prop='C07'
needs='removing the relocations of an image that is not marked for a dynamic base'
breaks='the dynamic base flag appears'
edits=[('pe_properties_generic.cpp', 'set_dll_characteristics(get_dll_characteristics() & ~image_dllcharacteristics_dynamic_base);', 'set_dll_characteristics(get_dll_characteristics() ^ image_dllcharacteristics_dynamic_base);')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); add(pe, ".a", std::string(16, 'a')); pe.set_directory_rva(5, 0x1000); pe.set_directory_size(5, 8); pe.set_dll_characteristics(0x100); pe.remove_directory(5); return pe.get_dll_characteristics() == 0x100 ? 0 : 1;
}
'''
