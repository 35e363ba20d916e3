prop='C28'
needs='assigning an image without debug data to an image object that has some'
breaks='the assigned image keeps the raw debug data of the other file'
edits=[('pe_base.cpp', '    full_headers_data_ = pe.full_headers_data_;\n    debug_data_ = pe.debug_data_;\n    pe_properties', '    full_headers_data_ = pe.full_headers_data_;\n    debug_data_.insert(pe.debug_data_.begin(), pe.debug_data_.end());\n    pe_properties')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base n((pe_properties_32())); section& s = add(n, ".a", std::string(0x200, 'a')); std::string e; put32(e, 12, 2); put32(e, 16, 8); put32(e, 20, 0); put32(e, 24, 0x400); e.resize(28); std::string none = saved(n);
    { std::istringstream i(none); pe_base q(i, pe_properties_32(), false); put32(e, 24, q.get_image_sections()[0].get_pointer_to_raw_data() + 0x40); } memcpy(&s.get_raw_data()[0], &e[0], 28); n.set_directory_rva(6, s.get_virtual_address()); n.set_directory_size(6, 28); std::string with = saved(n);
    std::istringstream i(with), j(none); pe_base a(i, pe_properties_32(), false), b(j, pe_properties_32(), false); if(a.get_raw_debug_data_list().size() != 1) return 3; a = b; return a.get_raw_debug_data_list().empty() ? 0 : 1;
}
'''
