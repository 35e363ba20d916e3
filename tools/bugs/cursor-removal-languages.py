prop='C16'
needs='cursor groups in two languages sharing cursor identifiers'
breaks='removing the group of one language removes the cursors of the other language'
edits=[('resource_cursor_icon_writer.cpp', '        res_.remove_resource(pe_resource_viewer::resource_cursor, group->Number, language);', '        res_.remove_resource(pe_resource_viewer::resource_cursor, group->Number);')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
#include "pe_bliss_resources.h"
int main()
{
    used();
    resource_directory d; pe_resource_manager m(d); std::string g(6 + 14, 0); g[2] = 2; g[4] = 1; g[18] = 7; 
    m.add_resource(g, pe_resource_viewer::resource_cursor_group, 1, 1033); m.add_resource(g, pe_resource_viewer::resource_cursor_group, 1, 1049); m.add_resource("abcdx", pe_resource_viewer::resource_cursor, 7, 1033); m.add_resource("abcdy", pe_resource_viewer::resource_cursor, 7, 1049);
    resource_cursor_icon_writer(m).remove_cursor_group(1, 1033); try { return m.get_resource_data_by_id(1049, pe_resource_viewer::resource_cursor, 7).get_data() == "abcdy" ? 0 : 1; } catch(const pe_exception&) { return 1; }
}
'''
