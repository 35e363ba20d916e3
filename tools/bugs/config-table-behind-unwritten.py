prop='C21'
needs='rebuilding a load configuration with SE handlers in the information, writing of handlers disabled and writing of lock prefixes enabled'
breaks='the lock prefix table is placed behind a table that is not written, beyond the room computed for the directory'
edits=[('pe_load_config.cpp', 'current_pos_of_lock_prefixes = needed_size + image_config_data_pos;', 'current_pos_of_lock_prefixes = static_cast<uint32_t>(sizeof(typename PEClassType::ConfigStruct) + info.get_se_handler_rvas().size() * sizeof(uint32_t)) + image_config_data_pos;')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); add(pe, ".c", std::string(0x200, 0)); add(pe, ".d", std::string(0x200, 'x')); section& s = pe.get_image_sections()[0];
    image_config_info c; for(uint32_t i = 0; i < 20; ++i) c.add_se_handler_rva(0x1000 + i); c.add_lock_prefix_rva(0x1100);
    uint32_t at = 0x200 - sizeof(pe_win::image_load_config_directory32) - 8; // exactly the room that is needed
    try { rebuild_image_config(pe, c, s, at, false, true); } catch(const pe_exception&) { return 1; }
    return get32(s.get_raw_data(), 0x200 - 8) == pe.get_image_base_32() + 0x1100 && s.get_raw_data().length() == 0x200 ? 0 : 1;
}
'''
