prop='C20'
needs='rebuilding thread-local storage whose data starts and ends at the same non-zero address'
breaks='the end address is not written, and the directory cannot be read any more'
edits=[('pe_tls.cpp', '    if(info.get_raw_data_end_rva())\n    {', '    if(info.get_raw_data_end_rva() > info.get_raw_data_start_rva())\n    {')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".t", std::string(0x400, 0)); tls_info t; t.set_index_rva(s.get_virtual_address()); t.set_raw_data_start_rva(s.get_virtual_address() + 0x80); t.set_raw_data_end_rva(s.get_virtual_address() + 0x80);
    rebuild_tls(pe, t, s, 16); try { tls_info r = get_tls_info(pe); return r.get_raw_data_start_rva() == r.get_raw_data_end_rva() && r.get_raw_data_start_rva() ? 0 : 1; } catch(const pe_exception&) { return 1; }
}
'''
