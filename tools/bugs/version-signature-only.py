prop='C18'
needs='a version resource whose fixed information has a right signature and a wrong structure version, or the reverse'
breaks='broken fixed information is accepted'
edits=[('resource_version_info_reader.cpp', 'file_info->dwSignature != vs_ffi_signature || file_info->dwStrucVersion != vs_ffi_strucversion', 'file_info->dwSignature != vs_ffi_signature && file_info->dwStrucVersion != vs_ffi_strucversion')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
#include "pe_bliss_resources.h"
int main()
{
    used();
    resource_directory d; pe_resource_manager m(d); file_version_info fi; lang_string_values_map sv; translation_values_map tv; resource_version_info_writer(m).set_version_info(fi, sv, tv, 1033); std::string r = m.get_resource_data_by_id(1033, pe_resource_viewer::resource_version, 1).get_data();
    size_t at = r.find("\xbd\x04\xef\xfe"); if(at == std::string::npos) return 2; r[at + 4] = 7; m.add_resource(r, pe_resource_viewer::resource_version, 1, 1033); lang_string_values_map s2; translation_values_map t2;
    try { resource_version_info_reader(m).get_version_info_by_lang(s2, t2, 1033); return 1; } catch(const pe_exception&) { return 0; }
}
'''
