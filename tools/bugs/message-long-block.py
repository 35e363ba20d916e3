prop='C19'
needs='a block of messages whose texts take more than 64 KB'
breaks='the messages behind them are read from the beginning of the block'
edits=[('resource_message_list_reader.cpp', 'uint32_t current_pos = 0;', 'uint16_t current_pos = 0;')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
#include "pe_bliss_resources.h"
int main()
{
    used();
    std::string t(16, 0); t[0] = 1; t[4] = 1; t[8] = 3; t[12] = 16; for(int i = 0; i < 3; ++i) { std::string e(40000, 'a' + i); e[0] = (char)(40000 & 0xff); e[1] = (char)(40000 >> 8); e[2] = 0; e[3] = 0; t += e; } resource_directory d; pe_resource_manager m(d); m.add_resource(t, pe_resource_viewer::resource_message_table, 1, 1033);
    pe_resource_viewer w(d); resource_message_list l = resource_message_list_reader(w).get_message_table_by_id_lang(1033, 1); return l.size() == 3 && l[3].get_ansi_string().find('c') == 0 ? 0 : 1;
}
'''
