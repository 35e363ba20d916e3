prop="C13"
needs="a 64-bit image rebased by 2 GB or more"
breaks="relocated pointers get a truncated difference"
edits=[("pe_relocations.cpp","static_cast<typename PEClassType::BaseSize>(static_cast<int64_t>(new_base) - image_base);","static_cast<typename PEClassType::BaseSize>(static_cast<int32_t>(new_base - image_base));")]
demo=r'''
#include "pe_bliss.h"
#include <string.h>
using namespace pe_bliss;
int main()
{
    pe_base pe((pe_properties_64())); pe.set_image_base_64(0x140000000ull);
    uint64_t p = 0x140001234ull; section s; s.set_name(".a"); s.set_raw_data(std::string(reinterpret_cast<char*>(&p), 8) + std::string(64, 'a')); section& at = pe.add_section(s);
    relocation_table t(at.get_virtual_address()); t.add_relocation(relocation_entry(0, 10)); relocation_table_list l; l.push_back(t);
    rebase_image(pe, l, 0x7ff600000000ull); uint64_t q; memcpy(&q, pe.get_image_sections()[0].get_raw_data().data(), 8);
    return q == 0x7ff600001234ull ? 0 : 1;
}
'''
