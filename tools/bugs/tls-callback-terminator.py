prop='C20'
needs='callbacks written over an older, longer list'
breaks='the old callbacks behind the new ones stay in the list'
edits=[('pe_tls.cpp', 'uint32_t write_callbacks_size = std::min(needed_callback_size, available_raw_length);', 'uint32_t write_callbacks_size = std::min<uint32_t>(needed_callback_size - sizeof(typename PEClassType::BaseSize), available_raw_length);')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".t", std::string(0x200, 0)); tls_info i; i.set_index_rva(s.get_virtual_address() + 0x100); i.set_callbacks_rva(s.get_virtual_address() + 0x40); for(int k = 1; k < 5; ++k) i.add_tls_callback(0x1000 * k);
    rebuild_tls(pe, i, s, 0, true, false, tls_data_expand_raw, true, false); i.clear_tls_callbacks(); i.add_tls_callback(0x7000); rebuild_tls(pe, i, s, 0, true, false, tls_data_expand_raw, true, false);
    tls_info j = get_tls_info(pe); return j.get_tls_callbacks().size() == 1 && j.get_tls_callbacks()[0] == 0x7000 ? 0 : 1;
}
'''
