prop='C18'
needs='a string table key and a string key of different parity'
breaks='the padding of string keys is computed from the table key'
edits=[('resource_version_info_writer.cpp', 'if((sizeof(uint16_t) * 3 + key_length) % sizeof(uint32_t))', 'if((sizeof(uint16_t) * 3 + (key_length < 64 ? key_length : lang_key_length)) % sizeof(uint32_t))')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    for(size_t n = 28; n != 40; ++n)
    {
        resource_directory root; pe_resource_manager m(root); lang_string_values_map s; translation_values_map t; file_version_info f; version_info_editor e(s, t); e.set_property(std::wstring(n, 'k'), L"value", L""); e.set_property(L"zz", L"second", L"");
        resource_version_info_writer(m).set_version_info(f, s, t, 0, 0, 0); lang_string_values_map s2; translation_values_map t2; resource_version_info_reader(m).get_version_info_by_lang(s2, t2, 0);
        if(s2 != s) return 1;
    }
    return 0;
}
'''
