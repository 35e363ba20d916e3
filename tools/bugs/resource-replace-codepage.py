prop='C15'
needs='a resource replaced by one of another codepage'
breaks='the old codepage stays'
edits=[('pe_resource_manager.cpp', '        entries->erase(it); //Erase it, if found\n', '    {\n        (*it).get_data_entry().set_data(data); //Replace its data, if found\n        return;\n    }\n')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
#include "pe_bliss_resources.h"
int main()
{
    used();
    resource_directory d; pe_resource_manager m(d); m.add_resource("a", pe_resource_viewer::resource_rcdata, 5, 9, 1251, 0); m.add_resource("bc", pe_resource_viewer::resource_rcdata, 5, 9, 1252, 0);
    resource_data_info i = m.get_resource_data_by_id(9, pe_resource_viewer::resource_rcdata, 5); return i.get_data() == "bc" && i.get_codepage() == 1252 ? 0 : 1;
}
'''
