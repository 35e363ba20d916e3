prop='C05'
needs='a 64-bit address more than 4 GB above the image base'
breaks='it is taken for an address inside the image'
edits=[('pe_properties_generic.cpp', '    if(bound_check && va - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword)', '    if(bound_check && va < nt_headers_.OptionalHeader.ImageBase)')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_64())); add(pe, ".a", std::string(16, 'a')); try { pe.va_to_rva(static_cast<uint64_t>(pe.get_image_base_64() + 0x100001000ull)); return 1; } catch(const pe_exception&) { return 0; }
}
'''
