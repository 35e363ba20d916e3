prop='C09'
needs='rebuilding imports of a bound library whose tables are not kept in place'
breaks='the timestamp of the library is lost'
edits=[('pe_imports.cpp', '        descr.TimeDateStamp = (*it).get_timestamp(); //Restore timestamp', '        descr.TimeDateStamp = import_settings.save_iat_and_original_iat_rvas() ? (*it).get_timestamp() : 0; //Restore timestamp')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".idata", std::string(1, 0)); imported_functions_list l(1); l[0].set_name("a.dll"); l[0].set_timestamp(0x12345678); imported_function f; f.set_name("f"); f.set_iat_va(1); l[0].add_import(f);
    import_rebuilder_settings st(true, false); st.save_iat_and_original_iat_rvas(false, false); rebuild_imports(pe, l, s, st); return get_imported_functions(pe).at(0).get_timestamp() == 0x12345678 ? 0 : 1;
}
'''
