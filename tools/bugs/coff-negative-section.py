prop='C23'
needs='a COFF external function symbol with an absolute or debug section number (-1, -2)'
breaks='symbols that belong to no section are reported with section numbers 65535 and 65534'
edits=[('pe_debug.cpp', '&& (sym->SectionNumber > 0))', '&& (sym->SectionNumber != 0))')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); std::string d(0x300, 0), b(32, 0); // header
    put32(b, 0, 2); put32(b, 4, 32); for(int i = 0; i < 2; ++i) { std::string y(18, 0); memcpy(&y[0], i ? "abs" : "function", i ? 3 : 8); put32(y, 8, 0x10 + i); put16(y, 12, i ? 0xffff : 1); put16(y, 14, 0x20); y[16] = 2; b += y; }
    section& s = add(pe, ".d", d); std::string f; { std::string& r = s.get_raw_data(); memcpy(&r[0x40], &b[0], b.size()); std::string e; put32(e, 12, 1); put32(e, 16, (uint32_t)b.size()); put32(e, 20, s.get_virtual_address() + 0x40); put32(e, 24, 0); memcpy(&r[0], &e[0], e.size()); }
    pe.set_directory_rva(6, s.get_virtual_address()); pe.set_directory_size(6, 28); f = saved(pe); // find where the section lies in the file
    { std::istringstream i(f); pe_base q(i, pe_properties_32(), false); put32(s.get_raw_data(), 24, q.get_image_sections()[0].get_pointer_to_raw_data() + 0x40); } f = saved(pe);
    std::istringstream i(f); pe_base q(i, pe_properties_32(), false); debug_info_list l = get_debug_information(q); if(l.size() != 1 || l[0].get_advanced_info_type() != debug_info::advanced_info_coff) return 3;
    return l[0].get_advanced_debug_info<coff_debug_info>().get_symbols().size() == 1 ? 0 : 1;
}
'''
