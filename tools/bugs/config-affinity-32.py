prop='C21'
needs='a load configuration of a PE32+ image with affinity bits above the 32nd'
breaks='the upper half of the affinity mask is lost when the directory is rebuilt'
edits=[('pe_load_config.cpp', 'image_config_section_struct.ProcessAffinityMask = static_cast<typename PEClassType::BaseSize>(info.get_process_affinity_mask());', 'image_config_section_struct.ProcessAffinityMask = static_cast<uint32_t>(info.get_process_affinity_mask());')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_64())); section& s = add(pe, ".c", std::string(0x200, 0)); image_config_info c; c.set_process_affinity_mask(0x500000001ull); rebuild_image_config(pe, c, s); return get_image_config(pe).get_process_affinity_mask() == 0x500000001ull ? 0 : 1;
}
'''
