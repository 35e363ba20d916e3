prop='C16'
needs='exactly one free identifier between two icons, with the mode that uses free identifiers'
breaks='the gap is not used'
edits=[('resource_cursor_icon_writer.cpp', 'else if(*(it - 1) - *it > 1)', 'else if(*it - *(it - 1) > 2)')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    resource_directory root; pe_resource_manager m(root); m.add_resource("a", pe_resource_viewer::resource_icon, 1, 0, 0, 0); m.add_resource("b", pe_resource_viewer::resource_icon, 3, 0, 0, 0);
    std::string ico; put16(ico, 0, 0); put16(ico, 2, 1); put16(ico, 4, 1); ico += std::string(8, 1); put32(ico, 14, 4); put32(ico, 18, 22); ico += "icon";
    resource_cursor_icon_writer(m).add_icon(ico, 7, 0, resource_cursor_icon_writer::icon_place_free_ids); std::vector<uint32_t> ids = m.list_resource_ids(pe_resource_viewer::resource_icon);
    for(size_t i = 0; i != ids.size(); ++i) if(ids[i] == 2) return 0;
    return 1;
}
'''
