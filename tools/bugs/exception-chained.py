prop='C24'
needs='unwind information with the chained flag and a handler flag'
breaks='the chained flag is not reported'
edits=[('pe_exception_directory.cpp', 'return (flags_ & unw_flag_chaininfo) ? true : false;', 'return flags_ == unw_flag_chaininfo;')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_64())); std::string d(0x100, 0); put32(d, 0, 0x1000); put32(d, 4, 0x1010); put32(d, 8, 0x1040); d[0x40] = static_cast<char>(1 | (5 << 3)); add(pe, ".p", d); pe.set_directory_rva(3, 0x1000); pe.set_directory_size(3, 12);
    exception_entry_list l = get_exception_directory_data(pe); return l.size() == 1 && l[0].is_chaininfo() && l[0].has_exception_handler() ? 0 : 1;
}
'''
