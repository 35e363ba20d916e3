prop='C04'
needs='adding a section whose data is longer than its virtual size'
breaks='the virtual size stays too small for the data'
edits=[('pe_base.cpp', '            std::max<uint32_t>(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()),\n', '            std::max<uint32_t>(s.get_virtual_size() > 0x10000 ? 0 : pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()),\n')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section s; s.set_name(".a"); s.set_virtual_size(0x10001); s.set_raw_data(std::string(0x20001, 'a')); section& a = pe.add_section(s); if(a.get_virtual_size() < 0x20001) return 1;
    std::istringstream in(saved(pe)); try { pe_base q(pe_factory::create_pe(in)); return q.get_image_sections()[0].get_raw_data().substr(0, 0x20001) == std::string(0x20001, 'a') ? 0 : 1; } catch(const pe_exception&) { return 1; }
}
'''
