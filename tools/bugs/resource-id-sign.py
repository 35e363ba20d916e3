prop='C14'
needs='a directory with identifiers of 0x8000 and more next to smaller ones'
breaks='entries of the rebuilt directory are not in ascending order, which system lookups rely on'
edits=[('pe_resources.cpp', '        return entry1.get_id() < entry2.get_id();', '        return static_cast<int16_t>(entry1.get_id()) < static_cast<int16_t>(entry2.get_id()); //IDs are WORDs')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
#include "pe_bliss_resources.h"
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".rsrc", std::string(1, 0)); resource_directory d; pe_resource_manager m(d);
    m.add_resource("a", pe_resource_viewer::resource_rcdata, 5, 0); m.add_resource("b", pe_resource_viewer::resource_rcdata, 40000, 0); rebuild_resources(pe, d, s); const std::string& r = s.get_raw_data();
    uint32_t sub = get32(r, 16 + 4) & 0x7fffffff; return get32(r, sub + 16) == 5 && get32(r, sub + 24) == 40000 ? 0 : 1;
}
'''
