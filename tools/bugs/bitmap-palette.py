prop='C17'
needs='a bitmap with 8 or fewer bits per pixel that announces a shorter palette and a later header'
breaks='the offset to the bits is wrong'
edits=[('resource_bitmap_reader.cpp', '        if(info->biClrUsed != 0)\n', '        if(info->biClrUsed > 1)\n')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    std::string b; put16(b, 0, 0x4d42); put32(b, 2, 14 + 40 + 4 + 8); put32(b, 6, 0); put32(b, 10, 58); put32(b, 14, 40); put32(b, 18, 1); put32(b, 22, 1); put16(b, 26, 1); put16(b, 28, 1); put32(b, 30, 0); put32(b, 34, 4); put32(b, 38, 0); put32(b, 42, 0); put32(b, 46, 1); put32(b, 50, 0); b += std::string(12, 'b');
    resource_directory root; pe_resource_manager m(root); resource_bitmap_writer(m).add_bitmap(b, 5, 0); return resource_bitmap_reader(m).get_bitmap_by_id_lang(0, 5) == b ? 0 : 1;
}
'''
