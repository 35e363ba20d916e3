prop='C02'
needs='an image with an overlay assigned to an image without one, or the other way round'
breaks='the assigned image reports the overlay of the old one'
edits=[('pe_base.cpp', '    has_overlay_ = pe.has_overlay_;\n', '')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); add(pe, ".a", std::string(0x200, 'A')); std::ostringstream o; rebuild_pe(pe, o); std::istringstream is(o.str() + "overlay"); pe_base q(is, pe_properties_32(), false); if(!q.has_overlay() || pe.has_overlay()) return 1; pe_base z((pe_properties_64())); z = q; if(!z.has_overlay()) return 1; z = pe; return z.has_overlay() ? 1 : 0;
}
'''
