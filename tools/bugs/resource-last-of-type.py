prop='C15'
needs='removing the last resource of a type that has several languages'
breaks='the empty type stays behind'
edits=[('pe_resource_manager.cpp', '            entries_name.erase(it_name);\n            if(entries_name.empty())\n                entries_type.erase(it_type);\n', '            const bool single = (*it_name).get_resource_directory().get_entry_list().size() < 2;\n            entries_name.erase(it_name);\n            if(entries_name.empty() && single)\n                entries_type.erase(it_type);\n')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    resource_directory root; pe_resource_manager m(root); m.add_resource("a", pe_resource_viewer::resource_icon, 1, 1033, 0, 0); m.add_resource("b", pe_resource_viewer::resource_icon, 1, 1049, 0, 0);
    m.remove_resource(pe_resource_viewer::resource_icon, 1); return m.resource_exists(pe_resource_viewer::resource_icon) ? 1 : 0;
}
'''
