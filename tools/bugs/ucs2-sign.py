prop='C30'
needs='converting text with characters from U+8000 on'
breaks='such characters are changed into other values'
edits=[('utils.cpp', '    ret.resize(str.length());\n\n    iconv_t conv = iconv_open("WCHAR_T", "UCS-2");\n    if(conv == reinterpret_cast<iconv_t>(-1))\n        throw pe_exception("Error opening iconv", pe_exception::encoding_convertion_error);\n\n    size_t inbytesleft = str.length() * sizeof(unicode16_t);\n    size_t outbytesleft = ret.length() * sizeof(wchar_t);\n    const unicode16_t* in_pos = str.c_str();\n    wchar_t* out_pos = &ret[0];\n\n    size_t result = iconv(conv, const_cast<char**>(reinterpret_cast<const char**>(&in_pos)), &inbytesleft, reinterpret_cast<char**>(&out_pos), &outbytesleft);\n    iconv_close(conv);\n\n    if(result == static_cast<size_t>(-1))\n        throw pe_exception("Iconv error", pe_exception::encoding_convertion_error);\n', '    ret.reserve(str.length());\n\n    //UCS-2 characters are code points\n    for(size_t i = 0; i != str.length(); ++i)\n    {\n        if((str[i] & 0xF800) == 0xD800) //Surrogate\n            throw pe_exception("Iconv error", pe_exception::encoding_convertion_error);\n\n        ret.push_back(static_cast<short>(str[i]));\n    }\n')]
demo=r'''
#include "pe_bliss.h"
#include "pe_bliss_resources.h"
#include <sstream>
#include <string.h>
using namespace pe_bliss;
static void put32(std::string& s, size_t at, uint32_t v) { if(s.size() < at + 4) s.resize(at + 4); memcpy(&s[at], &v, 4); }
static void put16(std::string& s, size_t at, uint16_t v) { if(s.size() < at + 2) s.resize(at + 2); memcpy(&s[at], &v, 2); }
static uint32_t get32(const std::string& s, size_t at) { uint32_t v = 0; if(at + 4 <= s.size()) memcpy(&v, &s[at], 4); return v; }
static section& add(pe_base& pe, const char* name, const std::string& data) { section s; s.set_name(name); s.readable(true).writeable(true); s.set_raw_data(data); return pe.add_section(s); }
static std::string saved(pe_base& pe, bool dos = false) { std::ostringstream o; rebuild_pe(pe, o, dos, true, true); return o.str(); }
static void used() { (void)put32; (void)put16; (void)get32; (void)add; (void)saved; }
int main()
{
    used();
    u16string s(1, 0x9031); s += static_cast<unicode16_t>('a'); std::wstring w = pe_utils::from_ucs2(s); return w.length() == 2 && w[0] == 0x9031 && w[1] == 'a' ? 0 : 1;
}
'''
