prop='C14'
needs='a resource of 64 KB or more'
breaks='its stored size loses the upper bits'
edits=[('pe_resources.cpp', 'data_entry.Size = static_cast<uint32_t>((*it).get_data_entry().get_data().length());', 'data_entry.Size = static_cast<uint16_t>((*it).get_data_entry().get_data().length());')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
#include "pe_bliss_resources.h"
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".r", "x"); resource_directory d; pe_resource_manager m(d); m.add_resource(std::string(70000, 'q'), pe_resource_viewer::resource_rcdata, 5, 9, 0, 0); rebuild_resources(pe, d, s); resource_directory q = get_resources(pe); pe_resource_viewer v(q);
    return v.get_resource_data_by_id(9, pe_resource_viewer::resource_rcdata, 5).get_data() == std::string(70000, 'q') ? 0 : 1;
}
'''
