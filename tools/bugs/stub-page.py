prop='C03'
needs='a DOS stub of more than 4 KB behind which the headers begin'
breaks='every further page of the stub is saved as a copy of the first one'
edits=[('pe_rebuilder.cpp', '            out.write(stub.data(), stub.size());', '            for(size_t done = 0; done < stub.size(); done += 0x1000)\n                out.write(stub.data() + (done & 0xfff), std::min<size_t>(stub.size() - done, 0x1000));')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    pe_base pe((pe_properties_32())); std::string t; for(int i = 0; i < 0x1800; ++i) t += (char)(i + i / 256); pe.set_stub_overlay(t); section a; a.set_name(".a"); a.set_raw_data("abc"); a.set_virtual_address(0x4000); pe.add_section(a); std::ostringstream o; rebuild_pe(pe, o); std::istringstream is(o.str()); pe_base q(pe_factory::create_pe(is)); return q.get_stub_overlay() == t ? 0 : 1;
}
'''
