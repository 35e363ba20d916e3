prop='C29'
needs='adding the same lock prefix address to a load configuration twice in a row'
breaks='the second one is dropped'
edits=[('pe_load_config.cpp', '    lock_prefixes_.push_back(rva);', '    if(lock_prefixes_.empty() || lock_prefixes_.back() != rva)\n        lock_prefixes_.push_back(rva);')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    image_config_info c; c.add_lock_prefix_rva(5); c.add_lock_prefix_rva(5); return c.get_lock_prefix_rvas().size() == 2 ? 0 : 1;
}
'''
