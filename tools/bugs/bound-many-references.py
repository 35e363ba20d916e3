prop='C22'
needs='a bound module with more than 255 forwarder references'
breaks='references are counted modulo 256, so the rest of the directory is misread'
edits=[('pe_bound_import.cpp', '        descriptor.NumberOfModuleForwarderRefs = static_cast<uint16_t>(import.get_module_ref_list().size());', '        descriptor.NumberOfModuleForwarderRefs = static_cast<uint8_t>(import.get_module_ref_list().size());')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); section& s = add(pe, ".b", std::string(1, 0)); bound_import b("m.dll", 1); for(uint32_t i = 0; i < 300; ++i) b.add_module_ref(bound_import_ref("r.dll", i)); bound_import_module_list l(1, b); rebuild_bound_imports(pe, l, s);
    try { return get_bound_import_module_list(pe).at(0).get_module_ref_list().size() == 300 ? 0 : 1; } catch(const pe_exception&) { return 1; }
}
'''
