prop='C02'
needs='a file whose PE header lies at an offset that is even, but not a multiple of four'
breaks='the file is loaded instead of being refused'
edits=[('pe_base.cpp', 'if((dos_header_.e_lfanew % sizeof(uint32_t)) != 0)', 'if((dos_header_.e_lfanew % sizeof(uint16_t)) != 0)')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); add(pe, ".a", std::string(0x200, 'A')); pe.set_stub_overlay(std::string(60, 's')); std::ostringstream o; rebuild_pe(pe, o); std::string f = o.str(); uint32_t at; memcpy(&at, &f[0x3c], 4); std::string h = f.substr(at, 24 + 224 + 40); f.replace(at, h.size() + 2, "xx" + h); put32(f, 0x3c, at + 2);
    std::istringstream is(f); try { pe_base q(pe_factory::create_pe(is)); } catch(const pe_exception&) { return 0; } return 1;
}
'''
