prop='C02'
needs='a section at the end of the file whose file offset is not aligned in the section table'
breaks='the file is refused although the loader rounds the offset down'
edits=[('pe_base.cpp', 'pe_utils::align_down(s.get_pointer_to_raw_data(), get_file_alignment()) + s.get_size_of_raw_data() > static_cast<uint32_t>(filesize))', 's.get_pointer_to_raw_data() + s.get_size_of_raw_data() > static_cast<uint32_t>(filesize))')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); add(pe, ".a", std::string(512, 'a')); std::string f = saved(pe); size_t at = f.find(".a"); put32(f, at + 20, get32(f, at + 20) + 5); std::istringstream in(f);
    try { pe_base q(pe_factory::create_pe(in)); return q.get_image_sections()[0].get_raw_data() == std::string(512, 'a') ? 0 : 1; } catch(const pe_exception&) { return 1; }
}
'''
