prop='C27'
needs='calculating the entropy of a stream that is not at its start'
breaks='the stream is left at its start instead of where it was'
edits=[('entropy.cpp', '    std::streamoff length = pe_utils::get_file_size(file);\n    length -= file.tellg();', '    std::streamoff length = pe_utils::get_file_size(file);\n    length -= pos;\n    pos = pos > 0 && length > 0 && file.peek() == 0 ? pos + 1 : pos; //Skip alignment byte')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    std::string d("ab\0cdef", 7); std::istringstream i(d); i.seekg(2); entropy_calculator::calculate_entropy(i); return (long)i.tellg() == 2 ? 0 : 1;
}
'''
