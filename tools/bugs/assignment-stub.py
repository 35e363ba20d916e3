prop='C07'
needs='assigning an image without a DOS stub to one that has a stub'
breaks='the target keeps its own stub'
edits=[('pe_base.cpp', '    dos_header_ = pe.dos_header_;\n    rich_overlay_ = pe.rich_overlay_;\n    sections_ = pe.sections_;', '    dos_header_ = pe.dos_header_;\n    if(!pe.rich_overlay_.empty())\n        rich_overlay_ = pe.rich_overlay_;\n    sections_ = pe.sections_;')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base x((pe_properties_32())), y((pe_properties_32())); add(x, ".a", std::string(16, 'a')); add(y, ".a", std::string(16, 'a')); x.set_stub_overlay(std::string(64, 's')); x = y; return x.get_stub_overlay().empty() && saved(x) == saved(y) ? 0 : 1;
}
'''
