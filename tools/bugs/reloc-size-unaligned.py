prop="C12"
needs="relocations rebuilt at a section offset which is 2 modulo 4"
breaks="the returned directory size and the size written to the headers do not match the blocks"
edits=[("pe_relocations.cpp","if((start_reloc_pos + needed_size - size_delta) % sizeof(uint32_t))","if((start_reloc_pos + needed_size) % sizeof(uint32_t))")]
demo=r'''
#include "pe_bliss.h"
using namespace pe_bliss;
int main()
{
    pe_base pe((pe_properties_32()));
    section s; s.set_name(".a"); s.set_raw_data(std::string(64, 'a')); section& at = pe.add_section(s);
    relocation_table t(0x1000); t.add_relocation(relocation_entry(8, 3)); t.add_relocation(relocation_entry(16, 3));
    relocation_table_list l; l.push_back(t);
    image_directory d = rebuild_relocations(pe, l, at, 2, true, false);
    return d.get_size() == 12 ? 0 : 1;
}
'''
