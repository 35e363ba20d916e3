From 6ff18de3a7e93df5de5098562cc15c875f80ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 01/70] fix: detect overlay from the end of the last raw data,
 not from the last section header

---
 src/pe_lib/pe_base.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7dcff57..7b0fa8a 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -860,7 +860,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             throw pe_exception("Cannot reach section headers", pe_exception::image_section_headers_not_found);
     }
 
-    uint32_t last_raw_size = 0;
+    std::streamoff last_raw_end = 0;
 
     //Read all sections
     for(int i = 0; i < get_number_of_sections(); i++)
@@ -888,7 +888,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             //If section has raw data
 
             //If section raw data size is greater than virtual, fix it
-            last_raw_size = s.get_size_of_raw_data();
+            last_raw_end = std::max(last_raw_end, static_cast<std::streamoff>(s.get_pointer_to_raw_data()) + s.get_size_of_raw_data());
             if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
@@ -953,7 +953,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     }
 
     //Check if image has overlay in the end of file
-    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(sections_.back().get_pointer_to_raw_data() + last_raw_size);
+    has_overlay_ = last_raw_end != 0 && filesize > last_raw_end;
 
     {
         //Additionally, read data from the beginning of istream to size of headers
-- 
2.43.0


From 326762e175b2b06d01fa8e09bb6830c4396fba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 02/70] fix: directory_exists must not underflow when the image
 has no data directories

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 40abf8c..a842206 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -44,7 +44,7 @@ pe_properties_generic<PEClassType>::~pe_properties_generic()
 template<typename PEClassType>
 bool pe_properties_generic<PEClassType>::directory_exists(uint32_t id) const
 {
-    return (nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1) >= id &&
+    return nt_headers_.OptionalHeader.NumberOfRvaAndSizes > id &&
         nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;
 }
 
-- 
2.43.0


From 4a2d1ab6bbbc4ba1d635da0133d44ef34f030531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 03/70] fix: don't pad the rebuilt file up to PointerToRawData
 of sections without raw data

---
 src/pe_lib/pe_rebuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index eb9888d..59441bb 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -158,6 +158,10 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         const section& s = *it;
 
+        //Section without raw data occupies no space in file, its PointerToRawData is meaningless
+        if(!s.get_size_of_raw_data())
+            continue;
+
         std::streamoff wpos = out.tellp();
 
         //Fill unused overlay data between sections with null bytes
-- 
2.43.0


From 34e34c2f5d15298c5ba52d164d2a063c2e2e7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 04/70] fix: don't read past section raw data when
 SizeOfRawData is greater than its length

---
 src/pe_lib/pe_rebuilder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 59441bb..b3a9b86 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "pe_rebuilder.h"
 #include "pe_base.h"
 #include "pe_structures.h"
@@ -169,7 +170,13 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
             out.put(0);
 
         //Write raw section data
-        out.write(s.get_raw_data().data(), s.get_size_of_raw_data());
+        const std::string& raw_data = s.get_raw_data();
+        const size_t data_size = std::min<size_t>(raw_data.size(), s.get_size_of_raw_data());
+        out.write(raw_data.data(), data_size);
+
+        //SizeOfRawData may be greater than actual data length, fill the rest with null bytes
+        for(size_t i = data_size; i < s.get_size_of_raw_data(); ++i)
+            out.put(0);
     }
 }
 }
-- 
2.43.0


From a0b86342baa225583c97f0ac0769e9c6ebcdb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 05/70] fix: bound import directory starting exactly at
 SizeOfHeaders is in a section, not in headers

---
 src/pe_lib/pe_rebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index b3a9b86..29180bc 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -102,7 +102,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     out.clear();
     
     uint32_t original_bound_import_rva = pe.has_bound_import() ? pe.get_directory_rva(image_directory_entry_bound_import) : 0;
-    if(original_bound_import_rva && original_bound_import_rva > pe.get_size_of_headers())
+    if(original_bound_import_rva && original_bound_import_rva >= pe.get_size_of_headers())
     {
         //No need to do anything with bound import directory
         //if it is placed inside of any section, not headers
-- 
2.43.0


From 1f35dd7c0a27d1eb2dd29ce720aee26cdf019a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 06/70] fix: strip_data_directories must leave at least
 min_count entries

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index a842206..35b19fd 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -127,7 +127,7 @@ uint32_t pe_properties_generic<PEClassType>::strip_data_directories(uint32_t min
         if(nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress && (static_cast<uint32_t>(i) != image_directory_entry_iat || !strip_iat_directory))
             break;
 
-        if(i <= static_cast<int>(min_count) - 2)
+        if(static_cast<uint32_t>(i) < min_count)
             break;
     }
 
-- 
2.43.0


From c232392e7c3531f43c36854f25a5c1a471d44f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 07/70] fix: allow reading a structure which ends exactly at
 the end of PE headers data

---
 src/pe_lib/pe_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.h b/src/pe_lib/pe_base.h
index 5642147..b340824 100644
--- a/src/pe_lib/pe_base.h
+++ b/src/pe_lib/pe_base.h
@@ -388,7 +388,7 @@ public: //IMAGE SECTIONS
     T section_data_from_rva(uint32_t rva, section_data_type datatype = section_data_raw, bool include_headers = false) const
     {
         //if RVA is inside of headers and we're searching them too...
-        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) < full_headers_data_.length()))
+        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) <= full_headers_data_.length()))
             return *reinterpret_cast<const T*>(&full_headers_data_[rva]);
 
         const section& s = section_from_rva(rva);
-- 
2.43.0


From 002917ed1c42931d680fc4479949ce7853913e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 08/70] fix: remaining length of a 2 GB section must not
 overflow int32

---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7b0fa8a..6fb21c4 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -705,7 +705,7 @@ uint32_t pe_base::section_data_length_from_rva(const section& s, uint32_t rva_in
     if(rva_inside >= s.get_virtual_address() && rva_inside < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
     {
         //Calculate remaining length of section data from "rva" address
-        int32_t length = static_cast<int32_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()))
+        int64_t length = static_cast<int64_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()))
             + s.get_virtual_address() - rva_inside;
 
         if(length < 0)
-- 
2.43.0


From 67ab8906888d86dea8fe29d3456e749fc940b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 09/70] fix: pe_base self-assignment must not use deleted
 properties

---
 src/pe_lib/pe_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 6fb21c4..ac77d17 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -94,9 +94,9 @@ pe_base& pe_base::operator=(const pe_base& pe)
     has_overlay_ = pe.has_overlay_;
     full_headers_data_ = pe.full_headers_data_;
     debug_data_ = pe.debug_data_;
+    pe_properties* props = pe.props_->duplicate().release();
     delete props_;
-    props_ = 0;
-    props_ = pe.props_->duplicate().release();
+    props_ = props;
 
     return *this;
 }
-- 
2.43.0


From a55c0500dbf057a7ac01ba61cd1cb89717c42ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 10/70] fix: import rebuilder must not cut section data which
 follows the rebuilt imports

---
 src/pe_lib/pe_imports.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 51b5b3f..3b3c1dd 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <string.h>
 #include "pe_imports.h"
 #include "pe_properties_generic.h"
@@ -460,6 +461,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
 
     std::string& raw_data = import_section.get_raw_data();
+    const std::string::size_type initial_data_length = raw_data.length();
 
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
@@ -733,7 +735,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     //Strip data a little, if we saved some place
     //We're allocating more space than needed, if present original IAT and IAT are saved
-    raw_data.resize(current_pos_for_original_iat);
+    //Don't touch any other data of this section
+    raw_data.resize(std::max<std::string::size_type>(current_pos_for_original_iat, initial_data_length));
 
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
-- 
2.43.0


From 1a049084e118feb172b488638fb137d6c54c79a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 11/70] fix: advance IAT position after an import by ordinal
 when no original IAT is built

---
 src/pe_lib/pe_imports.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 3b3c1dd..bbebbb6 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -658,6 +658,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         else
                         {
                             memcpy(&raw_data[current_pos_for_iat], &thunk_value, sizeof(thunk_value));
+                            current_pos_for_iat += sizeof(thunk_value);
                         }
                     }
                 }
-- 
2.43.0


From 1afea074efdb6b3e7175a52232c91becf2f58705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 12/70] fix: fill_missing_original_iats must not spoil the IAT
 when original IATs are not built

---
 src/pe_lib/pe_imports.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index bbebbb6..ceafcb8 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -488,7 +488,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         //If we should save IAT for current import descriptor
         bool save_iats_for_this_descriptor = import_settings.save_iat_and_original_iat_rvas() && (*it).get_rva_to_iat() != 0;
         //If we should write original IAT
-        bool write_original_iat = (!save_iats_for_this_descriptor && import_settings.build_original_iat()) || import_settings.fill_missing_original_iats();
+        bool write_original_iat = import_settings.build_original_iat() && (!save_iats_for_this_descriptor || import_settings.fill_missing_original_iats());
 
         //If we should rewrite saved original IAT for current import descriptor (without changing its position)
         bool rewrite_saved_original_iat = save_iats_for_this_descriptor && import_settings.rewrite_iat_and_original_iat_contents() && import_settings.build_original_iat();
-- 
2.43.0


From 33258ce753267a5a0685812581bfe324950f07d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 13/70] fix: recognize forwarded exports which have no name

---
 src/pe_lib/pe_exports.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 10ee7f0..8a29fd9 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -383,26 +383,26 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
                     func.set_name(func_name);
                     func.set_name_ordinal(ordinal2);
 
-                    //If the function is just a redirect, save its name
-                    if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
-                        rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
-                    {
-                        if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                    break;
+                }
+            }
 
-                        //Get forwarded function name pointer
-                        const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
+            //If the function is just a redirect, save its name
+            if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
+                rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
+            {
+                if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                        //Check for null-termination
-                        if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                //Get forwarded function name pointer
+                const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
 
-                        //Set the name of forwarded function
-                        func.set_forwarded_name(forwarded_func_name);
-                    }
+                //Check for null-termination
+                if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                    break;
-                }
+                //Set the name of forwarded function
+                func.set_forwarded_name(forwarded_func_name);
             }
 
             //Add function info to output array
-- 
2.43.0


From 6d3b0d92494bbd69b9ac4eb32e29981f35018dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 14/70] fix: rebuilding an empty export list must not create
 bogus function entries

---
 src/pe_lib/pe_exports.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 8a29fd9..c086456 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -537,7 +537,8 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     needed_size_for_strings += needed_size_for_function_forwards;
     uint32_t needed_size_for_function_name_ordinals = number_of_names * sizeof(uint16_t);
     uint32_t needed_size_for_function_name_rvas = number_of_names * sizeof(uint32_t);
-    uint32_t needed_size_for_function_addresses = (max_ordinal - ordinal_base + 1) * sizeof(uint32_t);
+    const uint32_t number_of_functions = exports.empty() ? 0 : (max_ordinal - ordinal_base + 1); //Number of function address table entries
+    uint32_t needed_size_for_function_addresses = number_of_functions * sizeof(uint32_t);
     
     //Export directory header will be placed first
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
@@ -580,7 +581,7 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
         dir.MajorVersion = info.get_major_version();
         dir.MinorVersion = info.get_minor_version();
         dir.TimeDateStamp = info.get_timestamp();
-        dir.NumberOfFunctions = max_ordinal - ordinal_base + 1;
+        dir.NumberOfFunctions = number_of_functions;
         dir.NumberOfNames = number_of_names;
         dir.Base = ordinal_base;
         dir.AddressOfFunctions = pe.rva_from_section_offset(exports_section, current_pos_of_function_addresses);
-- 
2.43.0


From c1ee2e921bd5fc73049eb429135648b5c4f9b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 15/70] fix: check size of every relocation block, only inside
 the directory

---
 src/pe_lib/pe_relocations.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 331ea46..9994584 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -119,15 +119,16 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     //First IMAGE_BASE_RELOCATION table
     image_base_relocation reloc_table = pe.section_data_from_rva<image_base_relocation>(current_pos, section_data_virtual, true);
 
-    if(reloc_table.SizeOfBlock % 2)
-        throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
-
     uint32_t reloc_size = pe.get_directory_size(image_directory_entry_basereloc);
     uint32_t read_size = 0;
 
     //reloc_table.VirtualAddress is not checked (not so important)
     while(reloc_table.SizeOfBlock && read_size < reloc_size)
     {
+        //Every block must consist of whole words
+        if(reloc_table.SizeOfBlock % 2)
+            throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
         //Create relocation table
         relocation_table table;
         //Save RVA
-- 
2.43.0


From 27b6d13af96a66232408be71660a81ad8dbfeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 16/70] fix: calculate space for resources in the order in
 which they are written

---
 src/pe_lib/pe_resources.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4dfec8..8300a5e 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -461,6 +461,19 @@ public:
     bool operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const;
 };
 
+//Helper function to sort resource directory entries
+void sort_resource_directory(resource_directory& root)
+{
+    resource_directory::entry_list& entries = root.get_entry_list();
+    std::sort(entries.begin(), entries.end(), entry_sorter());
+
+    for(resource_directory::entry_list::iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if(!(*it).includes_data())
+            sort_resource_directory((*it).get_resource_directory());
+    }
+}
+
 //Helper function to rebuild resource directory
 void rebuild_resource_directory(pe_base& pe, section& resource_section, resource_directory& root, uint32_t& current_structures_pos, uint32_t& current_data_pos, uint32_t& current_strings_pos, uint32_t offset_from_section_start)
 {
@@ -471,11 +484,6 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
     dir.MinorVersion = root.get_minor_version();
     dir.TimeDateStamp = root.get_timestamp();
     
-    {
-        resource_directory::entry_list& entries = root.get_entry_list();
-        std::sort(entries.begin(), entries.end(), entry_sorter());
-    }
-
     //Calculate number of named and ID entries
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
@@ -582,6 +590,9 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
     if(info.get_entry_list().empty())
         throw pe_exception("Empty resource directory", pe_exception::incorrect_resource_directory);
     
+    //Sort entries before calculating needed space: size of alignment depends on their order
+    sort_resource_directory(info);
+
     uint32_t aligned_offset_from_section_start = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
     uint32_t needed_size_for_structures = aligned_offset_from_section_start - offset_from_section_start; //Calculate needed size for resource tables and data
     uint32_t needed_size_for_strings = 0;
-- 
2.43.0


From 7314b3f863fe1196b10ba7b2f3a5c3202dec775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 17/70] fix: resource_directory_entry must not use its deleted
 contents when assigned from itself

---
 src/pe_lib/pe_resources.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 8300a5e..ff53e70 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,21 +68,14 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
-    release();
-
-    id_ = other.id_;
-    name_ = other.name_;
-    includes_data_ = other.includes_data_;
-    named_ = other.named_;
+    //Copy first: other may be this entry or may be contained in its directory
+    resource_directory_entry copy(other);
 
-    //If other union'ed pointer is not zero
-    if(other.ptr_.data_)
-    {
-        if(other.includes_data())
-            ptr_.data_ = new resource_data_entry(*other.ptr_.data_);
-        else
-            ptr_.dir_ = new resource_directory(*other.ptr_.dir_);
-    }
+    std::swap(id_, copy.id_);
+    std::swap(name_, copy.name_);
+    std::swap(includes_data_, copy.includes_data_);
+    std::swap(named_, copy.named_);
+    std::swap(ptr_, copy.ptr_);
 
     return *this;
 }
@@ -189,16 +182,18 @@ void resource_directory_entry::set_id(uint32_t id)
 //Adds resource_data_entry
 void resource_directory_entry::add_data_entry(const resource_data_entry& entry)
 {
+    resource_data_entry* data = new resource_data_entry(entry); //Copy first: entry may belong to this entry
     release();
-    ptr_.data_ = new resource_data_entry(entry);
+    ptr_.data_ = data;
     includes_data_ = true;
 }
 
 //Adds resource_directory
 void resource_directory_entry::add_resource_directory(const resource_directory& dir)
 {
+    resource_directory* directory = new resource_directory(dir); //Copy first: dir may belong to this entry
     release();
-    ptr_.dir_ = new resource_directory(dir);
+    ptr_.dir_ = directory;
     includes_data_ = false;
 }
 
-- 
2.43.0


From 428a1167483984f022ec8457bf7df367f2ba0292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 18/70] fix: length of a resource name is in characters, not in
 bytes

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index ff53e70..b0627f2 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -362,7 +362,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 
             //Check name length
             if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
-                < directory_name_length)
+                < directory_name_length * sizeof(uint16_t) /* unicode */)
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
-- 
2.43.0


From 4f5a1870aa0b2ef4c90caaa64013b097c6a2325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:32 +0000
Subject: [PATCH 19/70] fix: cursors of height 128 and more must keep their
 height

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index c519124..7f73ef7 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -298,7 +298,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         cursordirentry direntry;
         direntry.ColorCount = 0; //OK
         direntry.Width = static_cast<uint8_t>(group->Width);
-        direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+        direntry.Height = static_cast<uint8_t>(group->Height / 2);
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
@@ -441,7 +441,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
             cursordirentry direntry;
             direntry.ColorCount = 0; //OK
             direntry.Width = static_cast<uint8_t>(group->Width);
-            direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+            direntry.Height = static_cast<uint8_t>(group->Height / 2);
             direntry.Reserved = 0;
 
             if(raw_cursor_data.length() < 2 * sizeof(uint16_t))
-- 
2.43.0


From 30ca1cd36cc7cb54de69370059ed31ff60d207d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 20/70] fix: read icons and cursors of a group by index in the
 language of the group

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 37 ++++++++++++++++++----
 src/pe_lib/resource_cursor_icon_reader.h   |  6 ++--
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 7f73ef7..e0ac2df 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -57,6 +57,25 @@ uint16_t resource_cursor_icon_reader::format_icon_headers(std::string& ico_data,
     return info->Count;
 }
 
+//Returns language at specified index of language list
+static uint32_t language_at(const pe_resource_viewer::resource_language_list& languages, uint32_t index)
+{
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
+
+    return languages.at(index);
+}
+
+//Returns data of icon or cursor which belongs to a group having language "language" at index "index"
+//Languages of the group and of its items may be listed differently, so index is used only if item has no such language
+const std::string resource_cursor_icon_reader::get_group_item_data(pe_resource_viewer::resource_type type, uint32_t id, uint32_t language, uint32_t index) const
+{
+    const pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(type, id));
+    return std::find(languages.begin(), languages.end(), language) != languages.end()
+        ? res_.get_resource_data_by_id(language, type, id).get_data()
+        : res_.get_resource_data_by_id(type, id, index).get_data();
+}
+
 //Returns single icon data by ID and language (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_single_icon_by_id_lang(uint32_t language, uint32_t id) const
 {
@@ -88,6 +107,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
 
     //Get resource by name and index
     const std::string data = res_.get_resource_data_by_name(pe_resource_viewer::resource_icon_group, name, index).get_data();
+    const uint32_t language = language_at(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, name), index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -96,7 +116,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        ret += get_group_item_data(pe_resource_viewer::resource_icon, group->Number, language, index);
     }
 
     return ret;
@@ -151,6 +171,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
 
     //Get resource by id and index
     const std::string data = res_.get_resource_data_by_id(pe_resource_viewer::resource_icon_group, id, index).get_data();
+    const uint32_t language = language_at(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, id), index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -159,7 +180,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        ret += get_group_item_data(pe_resource_viewer::resource_icon, group->Number, language, index);
     }
 
     return ret;
@@ -304,7 +325,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         //Now read hotspot data from cursor data directory
         const std::string cursor = index == 0xFFFFFFFF
             ? res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data()
-            : res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data();
+            : get_group_item_data(pe_resource_viewer::resource_cursor, group->Number, language, index);
         if(cursor.length() < 2 * sizeof(uint16_t))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
@@ -354,15 +375,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(const std::wst
 
     //Get resource by name and index
     const std::string resource_data = res_.get_resource_data_by_name(pe_resource_viewer::resource_cursor_group, name, index).get_data();
+    const uint32_t language = language_at(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, name), index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        ret += get_group_item_data(pe_resource_viewer::resource_cursor, group->Number, language, index).substr(2 * sizeof(uint16_t));
     }
 
     return ret;
@@ -396,15 +418,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id(uint32_t id, uin
 
     //Get resource by ID and index
     const std::string resource_data = res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor_group, id, index).get_data();
+    const uint32_t language = language_at(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, id), index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        ret += get_group_item_data(pe_resource_viewer::resource_cursor, group->Number, language, index).substr(2 * sizeof(uint16_t));
     }
 
     return ret;
diff --git a/src/pe_lib/resource_cursor_icon_reader.h b/src/pe_lib/resource_cursor_icon_reader.h
index 7bd5ce4..ae810bc 100644
--- a/src/pe_lib/resource_cursor_icon_reader.h
+++ b/src/pe_lib/resource_cursor_icon_reader.h
@@ -1,11 +1,10 @@
 #pragma once
 #include <string>
 #include "stdint_defs.h"
+#include "pe_resource_viewer.h"
 
 namespace pe_bliss
 {
-class pe_resource_viewer;
-
 class resource_cursor_icon_reader
 {
 public:
@@ -42,6 +41,9 @@ public:
 private:
     const pe_resource_viewer& res_;
 
+    //Returns data of icon or cursor which belongs to a group having language "language" at index "index"
+    const std::string get_group_item_data(pe_resource_viewer::resource_type type, uint32_t id, uint32_t language, uint32_t index) const;
+
     //Helper function of creating icon headers from ICON_GROUP resource data
     //Returns icon count
     static uint16_t format_icon_headers(std::string& ico_data, const std::string& resource_data);
-- 
2.43.0


From 85fd95cc7061e420491d468d04f3413a48227b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 21/70] fix: refuse to add icons and cursors when there are no
 free IDs left

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 23 +++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index faae7bd..7fabb36 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -129,9 +129,9 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
                     {
                         if(*it > 1)
                         {
-                            for(uint16_t i = 1; i != *it; ++i)
+                            for(uint32_t i = 1; i != *it && i <= 0xFFFF; ++i)
                             {
-                                icon_cursor_id_list.push_back(i);
+                                icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
                                 if(icon_cursor_id_list.size() == count)
                                     break;
                             }
@@ -139,9 +139,9 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
                     }
                     else if(*(it - 1) - *it > 1)
                     {
-                        for(uint16_t i = static_cast<uint16_t>(*(it - 1) + 1); i != static_cast<uint16_t>(*it); ++i)
+                        for(uint32_t i = *(it - 1) + 1; i != *it && i <= 0xFFFF; ++i)
                         {
-                            icon_cursor_id_list.push_back(i);
+                            icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
                             if(icon_cursor_id_list.size() == count)
                                 break;
                         }
@@ -154,13 +154,22 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
         }
 
         uint32_t max_id = id_list.empty() ? 0 : *std::max_element(id_list.begin(), id_list.end());
-        for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count; ++i)
+        for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count && max_id < 0xFFFF; ++i)
             icon_cursor_id_list.push_back(static_cast<uint16_t>(++max_id));
     }
     catch(const pe_exception&) //Entry not found
     {
-        for(uint16_t i = 1; i != count + 1; ++i)
-            icon_cursor_id_list.push_back(i);
+        for(uint32_t i = 1; i != count + 1; ++i)
+            icon_cursor_id_list.push_back(static_cast<uint16_t>(i));
+    }
+
+    //IDs of icons and cursors are stored as WORDs in their groups
+    if(icon_cursor_id_list.size() != count)
+    {
+        if(type == pe_resource_viewer::resource_cursor)
+            throw pe_exception("Not enough free IDs for cursors", pe_exception::resource_incorrect_cursor);
+        else
+            throw pe_exception("Not enough free IDs for icons", pe_exception::resource_incorrect_icon);
     }
 
     return icon_cursor_id_list;
-- 
2.43.0


From 36e77eafa34829456099f82e62918ce9f68cf388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 22/70] fix: check size of the whole cursor group when looking
 for a cursor

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index e0ac2df..0082c00 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -443,7 +443,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
     const cursor_header* info = reinterpret_cast<const cursor_header*>(cursor_group_resource_data.data());
 
     //Check resource data length
-    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group))
+    if(cursor_group_resource_data.length() < sizeof(cursor_header) + info->Count * sizeof(cursor_group))
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
     //Iterate over all cursors listed in cursor group
-- 
2.43.0


From 67b2dfe58053458cd6d4bbee1c4bd312d729f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 23/70] fix: offset to bits of a bitmap must take version of
 its header and color masks into account

---
 src/pe_lib/resource_bitmap_reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pe_lib/resource_bitmap_reader.cpp b/src/pe_lib/resource_bitmap_reader.cpp
index a3952d4..d8526f1 100644
--- a/src/pe_lib/resource_bitmap_reader.cpp
+++ b/src/pe_lib/resource_bitmap_reader.cpp
@@ -52,6 +52,12 @@ const std::string resource_bitmap_reader::create_bitmap(const std::string& resou
         //Get bitmap info header
         const bitmapinfoheader* info = reinterpret_cast<const bitmapinfoheader*>(resource_data.data());
 
+        //Skip info header of later version, or color masks which follow the header of the first version
+        if(info->biSize > sizeof(bitmapinfoheader))
+            header.bfOffBits += info->biSize - static_cast<uint32_t>(sizeof(bitmapinfoheader));
+        else if(info->biCompression == 3 /* BI_BITFIELDS */)
+            header.bfOffBits += 3 * sizeof(uint32_t);
+
         //If color table is present, skip it
         if(info->biClrUsed != 0)
             header.bfOffBits += 4 * info->biClrUsed; //Add this size to offset to bitmap bits
-- 
2.43.0


From 847556be3620e963d89aa59f1f1644f3e7689df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 24/70] fix: look up version info translations without regard
 to case of their HEX digits

---
 src/pe_lib/version_info_editor.cpp |  6 +++---
 src/pe_lib/version_info_viewer.cpp | 23 +++++++++++++++++++++--
 src/pe_lib/version_info_viewer.h   |  4 ++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index 8bc8403..a6717de 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -79,7 +79,7 @@ void version_info_editor::set_property(const std::wstring& property_name, const
     if(translation.empty())
     {
         //If no translation was specified
-        it = strings_edit_.find(default_language_translation); //Find default translation table
+        it = strings_edit_.find(get_translation_key(strings_edit_, default_language_translation)); //Find default translation table
         if(it == strings_edit_.end()) //If there's no default translation table, take the first one
         {
             it = strings_edit_.begin();
@@ -93,7 +93,7 @@ void version_info_editor::set_property(const std::wstring& property_name, const
     }
     else
     {
-        it = strings_edit_.find(translation); //Find specified translation table
+        it = strings_edit_.find(get_translation_key(strings_edit_, translation)); //Find specified translation table
         if(it == strings_edit_.end()) //If there's no translation, add it
         {
             it = strings_edit_.insert(std::make_pair(translation, string_values_map())).first;
@@ -144,7 +144,7 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
         
-        strings_edit_.erase(ss.str());
+        strings_edit_.erase(get_translation_key(strings_edit_, ss.str()));
     }
 
     //Find and erase translation from translations table
diff --git a/src/pe_lib/version_info_viewer.cpp b/src/pe_lib/version_info_viewer.cpp
index 9f8c7a3..a80ef84 100644
--- a/src/pe_lib/version_info_viewer.cpp
+++ b/src/pe_lib/version_info_viewer.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <cwctype>
 #include <iomanip>
 #include <sstream>
 #include "pe_exception.h"
@@ -110,13 +112,13 @@ const std::wstring version_info_viewer::get_property(const std::wstring& propert
     if(translation.empty())
     {
         //If no translation was specified
-        it = strings_.find(default_language_translation); //Find default translation table
+        it = strings_.find(get_translation_key(strings_, default_language_translation)); //Find default translation table
         if(it == strings_.end()) //If there's no default translation table, take the first one
             it = strings_.begin();
     }
     else
     {
-        it = strings_.find(translation); //Find specified translation table
+        it = strings_.find(get_translation_key(strings_, translation)); //Find specified translation table
         if(it == strings_.end())
         {
             if(throw_if_absent)
@@ -142,6 +144,23 @@ const std::wstring version_info_viewer::get_property(const std::wstring& propert
     return ret;
 }
 
+//Returns translation string as it is written in the map of version info strings (translations are case-insensitive)
+const std::wstring version_info_viewer::get_translation_key(const lang_string_values_map& strings, const std::wstring& translation)
+{
+    if(strings.find(translation) != strings.end())
+        return translation;
+
+    for(lang_string_values_map::const_iterator it = strings.begin(); it != strings.end(); ++it)
+    {
+        const std::wstring& key = (*it).first;
+        if(key.length() == translation.length()
+            && std::equal(key.begin(), key.end(), translation.begin(), [](wchar_t a, wchar_t b) { return std::towlower(a) == std::towlower(b); }))
+            return key;
+    }
+
+    return translation;
+}
+
 //Converts translation HEX-string to pair of language ID and codepage ID
 const version_info_viewer::translation_pair version_info_viewer::translation_from_string(const std::wstring& translation)
 {
diff --git a/src/pe_lib/version_info_viewer.h b/src/pe_lib/version_info_viewer.h
index 8f8e1ed..8ea3cc3 100644
--- a/src/pe_lib/version_info_viewer.h
+++ b/src/pe_lib/version_info_viewer.h
@@ -61,6 +61,10 @@ public:
     //Default process language, UNICODE
     static const std::wstring default_language_translation;
 
+protected:
+    //Returns translation string as it is written in the map of version info strings (translations are case-insensitive)
+    static const std::wstring get_translation_key(const lang_string_values_map& strings, const std::wstring& translation);
+
 private:
     const lang_string_values_map& strings_;
     const translation_values_map& translations_;
-- 
2.43.0


From d31cb9fc2e4e35108a8e6051d211ef30529821da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:37 +0000
Subject: [PATCH 25/70] fix: refuse to write version info which does not fit
 its WORD lengths

---
 src/pe_lib/resource_version_info_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/resource_version_info_writer.cpp b/src/pe_lib/resource_version_info_writer.cpp
index 5456bf8..0fac405 100644
--- a/src/pe_lib/resource_version_info_writer.cpp
+++ b/src/pe_lib/resource_version_info_writer.cpp
@@ -62,6 +62,10 @@ void resource_version_info_writer::set_version_info(const file_version_info& fil
         total_version_info_length += static_cast<uint32_t>(translations.size() * sizeof(uint16_t) * 2);
     }
 
+    //Lengths of version info blocks are WORDs
+    if(total_version_info_length > 0xFFFF)
+        throw pe_exception("Version info is too long", pe_exception::resource_incorrect_version_info);
+
     //Resize version data buffer
     version_data.resize(total_version_info_length);
 
-- 
2.43.0


From 24e9087d477a184eb3e4c84d905862b3ee91bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 26/70] fix: do not read values of version info beyond the end
 of the resource

---
 src/pe_lib/resource_version_info_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 404914e..3f0933a 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -165,7 +165,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         //Get value position
                         uint32_t value_pos = get_version_block_value_pos(string_pos, reinterpret_cast<const unicode16_t*>(string_block->Key));
                         //Check it
-                        if(resource_data.length() < value_pos + string_block->ValueLength)
+                        if(resource_data.length() < value_pos + string_block->ValueLength * sizeof(uint16_t))
                             throw pe_exception("Incorrect resource version info", pe_exception::resource_incorrect_version_info);
 
                         //Get UNICODE string value
@@ -225,7 +225,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         throw_incorrect_version_info();
 
                     //Get list of translations: pairs of LANGUAGE_ID - CODEPAGE_ID
-                    for(uint32_t i = 0; i < var_table->ValueLength; i += sizeof(uint16_t) * 2)
+                    for(uint32_t i = 0; i + sizeof(uint16_t) * 2 <= var_table->ValueLength; i += sizeof(uint16_t) * 2)
                     {
                         //Pair of WORDs
                         uint16_t lang_id = *reinterpret_cast<const uint16_t*>(resource_data.data() + value_pos + i);
-- 
2.43.0


From f1d10f721097d93c0b3ae9b6a342441335750351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 27/70] fix: message table must not be required to have room
 for one more block

---
 src/pe_lib/resource_message_list_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index a94f297..f012ec0 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -15,7 +15,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     resource_message_list ret;
 
     //Check resource data length
-    if(resource_data.length() < sizeof(message_resource_data))
+    if(resource_data.length() < sizeof(message_resource_data) - sizeof(message_resource_block))
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     const message_resource_data* message_data = reinterpret_cast<const message_resource_data*>(resource_data.data());
@@ -23,7 +23,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     //Check resource data length more carefully and some possible overflows
     if(message_data->NumberOfBlocks >= pe_utils::max_dword / sizeof(message_resource_block)
         || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), sizeof(message_resource_data))
-        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data))
+        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data) - sizeof(message_resource_block))
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     //Iterate over all message resource blocks
-- 
2.43.0


From 0960ad3f4c1c21760d88bf64ac141b0b697d0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 28/70] fix: message table may contain the message with the
 last possible ID

---
 src/pe_lib/resource_message_list_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index f012ec0..34247ed 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -88,6 +88,10 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
                     )));
             }
 
+            //The last possible ID, there's no next one
+            if(curr_id == pe_utils::max_dword)
+                break;
+
             //Go to next entry
             current_pos += entry->Length;
         }
-- 
2.43.0


From da40344c5501a390127d89ecc554361da0474377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 29/70] fix: do not read strings beyond the end of a string
 table

---
 src/pe_lib/resource_string_table_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_string_table_reader.cpp b/src/pe_lib/resource_string_table_reader.cpp
index 5ebbe61..da95df5 100644
--- a/src/pe_lib/resource_string_table_reader.cpp
+++ b/src/pe_lib/resource_string_table_reader.cpp
@@ -38,7 +38,7 @@ const resource_string_list resource_string_table_reader::parse_string_list(uint3
         passed_bytes += sizeof(uint16_t); //WORD containing string length
 
         //Check resource data length again
-        if(resource_data.length() < string_length + passed_bytes)
+        if(resource_data.length() < string_length * sizeof(uint16_t) + passed_bytes)
             throw pe_exception("Incorrect resource string table", pe_exception::resource_incorrect_string_table);
 
         if(string_length)
-- 
2.43.0


From e96059826997833e708a595d2421bd6696f0a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 30/70] fix: size of zero fill of TLS must be written even when
 there is no raw data

---
 src/pe_lib/pe_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index e639cb0..0800a57 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -258,7 +258,6 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     {
         pe.rva_to_va(info.get_raw_data_start_rva(), va);
         tls_struct.StartAddressOfRawData = va;
-        tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     }
 
     if(info.get_raw_data_end_rva())
@@ -276,6 +275,7 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         tls_struct.AddressOfCallBacks = va;
     }
 
+    tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     tls_struct.Characteristics = info.get_characteristics();
 
     //Save TLS structure
-- 
2.43.0


From 5a7f05e345005f2928d1788d9ea60863af7cc652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 31/70] fix: rebuild_tls must not read beyond the end of TLS
 raw data

---
 src/pe_lib/pe_tls.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 0800a57..b8c3316 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -310,6 +310,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
                 write_raw_data_size = available_raw_length; //We'll write just a part of full raw data
         }
 
+        //Don't read beyond the end of raw TLS data we have
+        if(write_raw_data_size > info.get_raw_data().length())
+            write_raw_data_size = static_cast<uint32_t>(info.get_raw_data().length());
+
         //Write raw TLS data, if any
         if(write_raw_data_size != 0)
             memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
-- 
2.43.0


From ebef10b8f7df96b4a9532c738a28795c5f7391b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 32/70] fix: TLS data and callbacks may lie in the part of the
 last section where TLS directory expands it

---
 src/pe_lib/pe_tls.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index b8c3316..78c9fd5 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -248,7 +248,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
 
     //This will be done only if tls_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + tls_data_pos)
+    {
         raw_data.resize(needed_size + tls_data_pos); //Expand section raw data
+        pe.recalculate_section_sizes(tls_section, false); //TLS data and callbacks may be placed to the expanded part
+    }
 
     //Create and fill TLS structure
     typename PEClassType::TLSStruct tls_struct = {0};
-- 
2.43.0


From 58fffb3410be902b5985358991101d3efaf35463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 33/70] fix: rebuild_tls must not write last TLS callback
 beyond section raw data

---
 src/pe_lib/pe_tls.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 78c9fd5..636835e 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <string.h>
 #include "pe_tls.h"
 #include "pe_properties_generic.h"
@@ -339,7 +340,8 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         }
 
         //Check if there's enough space to write callbacks TLS data...
-        if(pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true)
+        uint32_t available_raw_length = pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true);
+        if(available_raw_length
             < needed_callback_size - sizeof(typename PEClassType::BaseSize) /* last zero element can be virtual only */)
             throw pe_exception("Insufficient space for TLS callbacks data", pe_exception::insufficient_space);
         
@@ -361,8 +363,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         //Ending null element
         callbacks_virtual_addresses.push_back(0);
 
-        //Write callbacks TLS data
-        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], needed_callback_size);
+        //Write callbacks TLS data (last zero element can be virtual only)
+        uint32_t write_callbacks_size = std::min(needed_callback_size, available_raw_length);
+        if(write_callbacks_size != 0)
+            memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], write_callbacks_size);
     }
     
     //Adjust section raw and virtual sizes
-- 
2.43.0


From 18cbc1d58d760b87366e17bcc2f3d84d054d22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:38 +0000
Subject: [PATCH 34/70] fix: recalculate_section_sizes must not strip sections
 in the middle of the image

---
 src/pe_lib/pe_base.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index ac77d17..c8edd90 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1565,9 +1565,9 @@ void pe_base::recalculate_section_sizes(section& s, bool auto_strip)
 {
     prepare_section(s); //Recalculate section raw addresses
 
-    //Strip RAW size of section, if it is the last one
-    //For all others it must be file-aligned and calculated by prepare_section() call
-    if(auto_strip && !(sections_.empty() || &s == &*(sections_.end() - 1)))
+    //Don't strip attached sections, their RAW size is calculated by prepare_section() call
+    //and ending nullbytes of their raw data can belong to rebuilt directories
+    if(auto_strip && !section_attached(s))
     {
         //Strip ending raw data nullbytes to optimize size
         std::string& raw_data = s.get_raw_data();
-- 
2.43.0


From be13bffbaa181433d58b2e5847377ecf6dd9e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 35/70] fix: load config tables may lie in the part of a
 section which is not stored in the file

---
 src/pe_lib/pe_load_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 10a79bc..bdc7de4 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -359,7 +359,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
 
     //Read sorted SE handler RVA list (if any)
     for(typename PEClassType::BaseSize i = 0; i != config_info.SEHandlerCount; ++i)
-        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t))));
+        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual));
 
     if(config_info.LockPrefixTable)
     {
@@ -367,7 +367,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         uint32_t current = 0;
         while(true)
         {
-            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)));
+            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual);
             if(!lock_prefix_va)
                 break;
 
-- 
2.43.0


From 55b9dc1535cdcdaf42129d29e91ea62dd9271a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 36/70] fix: rebuild_bound_imports must write the ending null
 descriptor

---
 src/pe_lib/pe_bound_import.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 985ebf4..97d1741 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -273,6 +273,9 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
         }
     }
 
+    //Ending null descriptor
+    memset(&raw_data[current_pos_for_structures], 0, sizeof(image_bound_import_descriptor));
+
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(imports_section, auto_strip_last_section);
     
-- 
2.43.0


From 424ef0eb15b9156f922eb999c628794ba986cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 37/70] fix: refuse to rebuild bound imports which do not fit
 16-bit name offsets

---
 src/pe_lib/pe_bound_import.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 97d1741..3dc975b 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -209,22 +209,29 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
     uint32_t needed_size = sizeof(image_bound_import_descriptor) /* Ending null descriptor */;
     uint32_t needed_size_for_strings = 0;
+    uint32_t last_string_pos = 0;
 
     //Calculate needed size for bound import data
     for(bound_import_module_list::const_iterator it = imports.begin(); it != imports.end(); ++it)
     {
         const bound_import& import = *it;
         needed_size += sizeof(image_bound_import_descriptor);
+        last_string_pos = needed_size_for_strings;
         needed_size_for_strings += static_cast<uint32_t>((*it).get_module_name().length()) + 1 /* nullbyte */;
 
         const bound_import::ref_list& refs = import.get_module_ref_list();
         for(bound_import::ref_list::const_iterator ref_it = refs.begin(); ref_it != refs.end(); ++ref_it)
         {
+            last_string_pos = needed_size_for_strings;
             needed_size_for_strings += static_cast<uint32_t>((*ref_it).get_module_name().length()) + 1 /* nullbyte */;
             needed_size += sizeof(image_bound_forwarder_ref);
         }
     }
     
+    //Offsets of module names are WORDs
+    if(needed_size + last_string_pos > pe_utils::max_word)
+        throw pe_exception("Bound import directory is too large", pe_exception::incorrect_bound_import_directory);
+
     needed_size += needed_size_for_strings;
     
     //Check if imports_section is last one. If it's not, check if there's enough place for bound import data
-- 
2.43.0


From a7ba1d5bdd9b93dd69db56db4490145d7a944833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 38/70] fix: check minimal length of MISC debug information

---
 src/pe_lib/pe_debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5dc2f6e..81a978f 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -817,7 +817,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
                     const image_debug_misc* misc_data = reinterpret_cast<const image_debug_misc*>(debug_data.data());
 
                     //Check misc data length
-                    if(debug_data.length() < misc_data->Length /* Total length of record */)
+                    if(debug_data.length() < misc_data->Length /* Total length of record */
+                        || misc_data->Length < sizeof(image_debug_misc) - 1 /* BYTE of data in structure */)
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Save advanced information
-- 
2.43.0


From 44f4bf2dd865aba8c9c69dcedd933ad11b66f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 39/70] fix: debug directory may lie in the very end of its
 section

---
 src/pe_lib/pe_debug.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 81a978f..2fa6860 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -837,6 +837,11 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
         //Go to next debug entry
         current_pos += sizeof(image_debug_directory);
+
+        //There may be nothing after the last entry
+        if(current_pos >= pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
+            break;
+
         directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From 69cf0be914eb6feaf881ad86bb80cb8791bade32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 40/70] fix: advanced debug information type of CodeView
 without structures must be set

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 2fa6860..48cd480 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -298,7 +298,7 @@ const coff_debug_info debug_info::get_advanced_debug_info<coff_debug_info>() con
 void debug_info::set_advanced_info_type(advanced_info_type type)
 {
     free_present_advanced_info();
-    if(advanced_info_type_ >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
+    if(type >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
         advanced_info_type_ = type;
 }
 
-- 
2.43.0


From e8b1b8124a90fda573275ab42fefe32f5ac5d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:33 +0000
Subject: [PATCH 41/70] fix: assigning debug information to itself must not
 lose advanced information

---
 src/pe_lib/pe_debug.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 48cd480..a5952e7 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -138,6 +138,9 @@ debug_info::debug_info(const debug_info& info)
 //Copy assignment operator
 debug_info& debug_info::operator=(const debug_info& info)
 {
+    if(this == &info)
+        return *this;
+
     copy_advanced_info(info);
 
     characteristics_ = info.characteristics_;
-- 
2.43.0


From 2d301750adfb112ff1fd6fc6711c5ee29f957b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 42/70] fix: don't interpret auxiliary COFF symbols of skipped
 symbols

---
 src/pe_lib/pe_debug.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index a5952e7..da97e19 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -745,6 +745,9 @@ const debug_info_list get_debug_information(const pe_base& pe)
                             i += sym->NumberOfAuxSymbols;
                             continue;
                         }
+
+                        //Skip auxiliary symbols of this symbol, too
+                        i += sym->NumberOfAuxSymbols;
                     }
 
                     info.set_advanced_debug_info(coff_info);
-- 
2.43.0


From 5c868876aaca901f51f570afcdf199b4aa4acb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 43/70] fix: COFF symbol file names are located relative to the
 first symbol

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index da97e19..a3955af 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -680,7 +680,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                         if(sym->StorageClass == image_sym_class_file)
                         {
                             //Save file name, it is situated just after this IMAGE_SYMBOL structure
-                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
+                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol), sym->NumberOfAuxSymbols * sizeof(image_symbol));
                             pe_utils::strip_nullbytes(file_name);
                             symbol.set_file_name(file_name);
 
-- 
2.43.0


From 4013b00afd95588b6877930b7374fd9359da6950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 44/70] fix: exception directory ends where its size says

---
 src/pe_lib/pe_exception_directory.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index f613746..2772ef6 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -130,12 +130,15 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
     if(current_pos % sizeof(uint32_t))
         throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
-    //First IMAGE_RUNTIME_FUNCTION_ENTRY table
-    image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
-
     //todo: virtual addresses BeginAddress and EndAddress are not checked to be inside image
-    while(exception_table.BeginAddress)
+    //There may be no ending null entry: number of entries is set by directory size
+    for(uint32_t count = pe.get_directory_size(image_directory_entry_exception) / sizeof(image_runtime_function_entry); count != 0; --count)
     {
+        //Next IMAGE_RUNTIME_FUNCTION_ENTRY table
+        image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
+        if(!exception_table.BeginAddress)
+            break;
+
         //Check addresses
         if(exception_table.BeginAddress > exception_table.EndAddress)
             throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
@@ -148,7 +151,6 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
 
         //Go to next exception entry
         current_pos += sizeof(image_runtime_function_entry);
-        exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
     }
 
     return ret;
-- 
2.43.0


From c8eba96604513cac4744edc4f6a9ce7a9aca74d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 45/70] fix: unwind information without unwind codes may lie in
 the very end of its section

---
 src/pe_lib/pe_exception_directory.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index 2772ef6..1886261 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -1,3 +1,5 @@
+#include <stddef.h>
+#include <string.h>
 #include "pe_exception_directory.h"
 
 namespace pe_bliss
@@ -144,7 +146,14 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
             throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
         //Get unwind information
-        unwind_info info = pe.section_data_from_rva<unwind_info>(exception_table.UnwindInfoAddress, section_data_virtual, true);
+        //Unwind codes are not read, and there may be none of them
+        if(pe.section_data_length_from_rva(exception_table.UnwindInfoAddress, exception_table.UnwindInfoAddress, section_data_virtual, true)
+            < offsetof(unwind_info, UnwindCode))
+            throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
+
+        unwind_info info;
+        memset(&info, 0, sizeof(info));
+        memcpy(&info, pe.section_data_from_rva(exception_table.UnwindInfoAddress, section_data_virtual, true), offsetof(unwind_info, UnwindCode));
 
         //Create exception entry and save it
         ret.push_back(exception_entry(exception_table, info));
-- 
2.43.0


From 77e4474cc37859a1693ad7057011643c30dfeec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 46/70] fix: Rich header must not be read beyond the end of the
 DOS stub

---
 src/pe_lib/pe_rich_data.cpp | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_rich_data.cpp b/src/pe_lib/pe_rich_data.cpp
index 807915c..edde687 100644
--- a/src/pe_lib/pe_rich_data.cpp
+++ b/src/pe_lib/pe_rich_data.cpp
@@ -60,7 +60,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     //Search for rich data overlay ID
     const char* begin = &rich_overlay[0];
     const char* end = begin + rich_overlay.length();
-    for(; begin != end; ++begin)
+    for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
     {
         if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
         {
@@ -73,18 +73,21 @@ const rich_data_list get_rich_data(const pe_base& pe)
     if(found)
     {
         //Check remaining length
-        if(static_cast<size_t>(end - begin) < sizeof(uint32_t))
+        if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 2)
             return ret;
 
         //The XOR key is after "Rich" word, we should get it
         uint32_t xorkey = *reinterpret_cast<const uint32_t*>(begin + sizeof(uint32_t));
 
+        //Rich data structures end before "Rich" word
+        end = begin;
+
         //True if rich data was found
         found = false;
 
         //Second search for signature "DanS"
         begin = &rich_overlay[0];
-        for(; begin != end; ++begin)
+        for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
         {
             if((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) == 0x536e6144) //"DanS"
             {
@@ -96,31 +99,25 @@ const rich_data_list get_rich_data(const pe_base& pe)
         //If second signature is found
         if(found)
         {
-            begin += sizeof(uint32_t) * 3;
+            //Skip "DanS" word and three words of padding
+            if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 4)
+                return ret;
+
+            begin += sizeof(uint32_t) * 4;
             //List all rich data structures
-            while(begin < end)
+            while(static_cast<size_t>(end - begin) >= sizeof(uint32_t) * 2)
             {
-                begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
-                //Check for rich overlay data end ("Rich" word reached)
-                if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
-                    break;
-
                 //Create rich_data structure
                 rich_data data;
                 data.set_number((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) >> 16);
                 data.set_version((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) & 0xFFFF);
 
                 begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
                 data.set_times(*reinterpret_cast<const uint32_t*>(begin) ^ xorkey);
 
                 //Save rich data structure
                 ret.push_back(data);
+                begin += sizeof(uint32_t);
             }
         }
     }
-- 
2.43.0


From 397e8a807be42309e7952a2cbc20cc77b1065252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:43 +0000
Subject: [PATCH 47/70] fix: pe_base must not leak its properties when the
 image can not be read

---
 src/pe_lib/pe_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index c8edd90..d3c99e5 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -31,6 +31,8 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     }
     catch(const std::exception&)
     {
+        //Destructor will not be called
+        delete props_;
         //If something went wrong, restore istream state
         file.seekg(old_offset);
         file.exceptions(state);
-- 
2.43.0


From 3ecb289d18f6900960589108294552e90c39fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 48/70] fix: position of the stream must be restored after
 reading beyond its end

---
 src/pe_lib/pe_base.cpp     | 12 ++++++------
 src/pe_lib/pe_checksum.cpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index d3c99e5..1f41bec 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -34,17 +34,17 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
         //Destructor will not be called
         delete props_;
         //If something went wrong, restore istream state
+        file.clear();
         file.seekg(old_offset);
         file.exceptions(state);
-        file.clear();
         //Rethrow
         throw;
     }
 
     //Restore istream state
+    file.clear();
     file.seekg(old_offset);
     file.exceptions(state);
-    file.clear();
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
@@ -1076,17 +1076,17 @@ pe_type pe_base::get_pe_type(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
         file.clear();
+        file.seekg(old_offset);
+        file.exceptions(state);
         //Retrhow exception
         throw;
     }
 
     //Restore stream state
-    file.exceptions(state);
-    file.seekg(old_offset);
     file.clear();
+    file.seekg(old_offset);
+    file.exceptions(state);
 
     //Determine PE type and return it
     return nt_headers.OptionalHeader.Magic == image_nt_optional_hdr64_magic ? pe_type_64 : pe_type_32;
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 2125780..c855fec 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -64,17 +64,17 @@ uint32_t calculate_checksum(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
         file.clear();
+        file.seekg(old_offset);
+        file.exceptions(state);
         //Rethrow
         throw;
     }
 
     //Restore istream state
-    file.exceptions(state);
-    file.seekg(old_offset);
     file.clear();
+    file.seekg(old_offset);
+    file.exceptions(state);
 
     //Return checksum
     return static_cast<uint32_t>(checksum);    
-- 
2.43.0


From f54a21fa99a522324746c20f32a59007d7c50b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 49/70] fix: reading an image must notice every failure of the
 stream

---
 src/pe_lib/pe_base.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 1f41bec..2565494 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -16,7 +16,9 @@ using namespace pe_win;
 //Constructor
 pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_from_mem, bool read_debug_raw_data)
 {
-    props_ = props.duplicate().release();
+    //Destructor will not be called if something goes wrong
+    std::unique_ptr<pe_properties> new_props(props.duplicate());
+    props_ = new_props.get();
 
     //Save istream state
     std::ios_base::iostate state = file.exceptions();
@@ -31,8 +33,6 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     }
     catch(const std::exception&)
     {
-        //Destructor will not be called
-        delete props_;
         //If something went wrong, restore istream state
         file.clear();
         file.seekg(old_offset);
@@ -45,6 +45,8 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     file.clear();
     file.seekg(old_offset);
     file.exceptions(state);
+
+    new_props.release();
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
@@ -761,12 +763,12 @@ const char* pe_base::section_data_from_rva(uint32_t rva, section_data_type datat
 void pe_base::read_dos_header(std::istream& file, image_dos_header& header)
 {
     //Check istream flags
-    if(file.bad() || file.eof())
+    if(file.fail() || file.eof())
         throw pe_exception("PE file stream is bad or closed.", pe_exception::bad_pe_file);
 
     //Read DOS header and check istream
     file.read(reinterpret_cast<char*>(&header), sizeof(image_dos_header));
-    if(file.bad() || file.eof())
+    if(file.bad() || file.fail())
         throw pe_exception("Unable to read IMAGE_DOS_HEADER", pe_exception::bad_dos_header);
 
     //Check DOS header magic
@@ -797,7 +799,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
     //Read NT headers
     file.read(get_nt_headers_ptr(), get_sizeof_nt_header() - sizeof(image_data_directory) * image_numberof_directory_entries);
-    if(file.bad() || file.eof())
+    if(file.bad() || file.fail())
         throw pe_exception("Error reading IMAGE_NT_HEADERS", pe_exception::error_reading_image_nt_headers);
 
     //Check PE signature
@@ -812,7 +814,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     {
         //Read data directory headers, if any
         file.read(get_nt_headers_ptr() + (get_sizeof_nt_header() - sizeof(image_data_directory) * image_numberof_directory_entries), sizeof(image_data_directory) * get_number_of_rvas_and_sizes());
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading DATA_DIRECTORY headers", pe_exception::error_reading_data_directories);
     }
 
@@ -846,7 +848,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         rich_overlay_.resize(dos_header_.e_lfanew - sizeof(image_dos_header));
         file.seekg(sizeof(image_dos_header));
         file.read(&rich_overlay_[0], dos_header_.e_lfanew - sizeof(image_dos_header));
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading 'Rich' & 'DOS stub' overlay", pe_exception::error_reading_overlay);
     }
 
@@ -870,7 +872,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         section s;
         //Read section header
         file.read(reinterpret_cast<char*>(&s.get_raw_header()), sizeof(image_section_header));
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading section header", pe_exception::error_reading_section_header);
 
         //Save next section header position
@@ -976,7 +978,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
         full_headers_data_.resize(size_of_headers);
         file.read(&full_headers_data_[0], size_of_headers);
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading file", pe_exception::error_reading_file);
     }
 
@@ -1008,7 +1010,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
                     file.read(&data[0], directory.SizeOfData);
-                    if(file.bad() || file.eof())
+                    if(file.bad() || file.fail())
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
 
                     debug_data_.insert(std::make_pair(directory.PointerToRawData, data));
@@ -1062,7 +1064,7 @@ pe_type pe_base::get_pe_type(std::istream& file)
 
         //Read NT headers (we're using 32-bit version, because there's no significant differencies between 32 and 64 bit version structures)
         file.read(reinterpret_cast<char*>(&nt_headers), sizeof(image_nt_headers32) - sizeof(image_data_directory) * image_numberof_directory_entries);
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading IMAGE_NT_HEADERS", pe_exception::error_reading_image_nt_headers);
 
         //Check NT headers signature
-- 
2.43.0


From 3156a1d0eca41b1942f4f28c56824df92c5c0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 50/70] fix: checksum and entropy must notice failures of the
 stream

---
 src/pe_lib/entropy.cpp     | 5 ++++-
 src/pe_lib/pe_checksum.cpp | 5 +++++
 src/pe_lib/utils.cpp       | 4 ++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/entropy.cpp b/src/pe_lib/entropy.cpp
index 12a3223..d09e2d9 100644
--- a/src/pe_lib/entropy.cpp
+++ b/src/pe_lib/entropy.cpp
@@ -26,13 +26,16 @@ double entropy_calculator::calculate_entropy(std::istream& file)
     std::streamoff length = pe_utils::get_file_size(file);
     length -= file.tellg();
 
-    if(!length) //Don't calculate entropy for empty buffers
+    if(length <= 0) //Don't calculate entropy for empty buffers
         throw pe_exception("Data length is zero", pe_exception::data_is_empty);
 
     //Count bytes
     for(std::streamoff i = 0; i != length; ++i)
         ++byte_count[static_cast<unsigned char>(file.get())];
 
+    if(file.fail())
+        throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
+
     file.seekg(pos);
 
     return calculate_entropy(byte_count, length);
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index c855fec..ba26240 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "pe_checksum.h"
 #include "pe_structures.h"
 #include "pe_base.h"
@@ -44,6 +45,10 @@ uint32_t calculate_checksum(std::istream& file)
 
             //Read DWORD from file
             file.read(reinterpret_cast<char*>(&dw), sizeof(dw));
+            //There may be less than four bytes left in the end of file
+            if(file.gcount() != std::min<std::streamoff>(sizeof(dw), filesize - i))
+                throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
             //Skip "CheckSum" DWORD
             if(i == pe_checksum_pos)
                 continue;
diff --git a/src/pe_lib/utils.cpp b/src/pe_lib/utils.cpp
index 5ee8117..d4b38d5 100644
--- a/src/pe_lib/utils.cpp
+++ b/src/pe_lib/utils.cpp
@@ -19,6 +19,10 @@ std::streamoff pe_utils::get_file_size(std::istream& file)
     std::streamoff filesize = file.tellg();
     //Set old istream offset
     file.seekg(old_offset);
+
+    if(old_offset < 0 || filesize < 0 || file.fail())
+        throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
+
     return filesize;
 }
 
-- 
2.43.0


From 333bcf7845f9d1327fae400ea4bb2ade958ab604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:28 +0000
Subject: [PATCH 51/70] fix: rebuild_pe must notice that position of the stream
 is unknown

---
 src/pe_lib/pe_rebuilder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 29180bc..8e62fac 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -164,6 +164,8 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
             continue;
 
         std::streamoff wpos = out.tellp();
+        if(wpos < 0)
+            throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
         //Fill unused overlay data between sections with null bytes
         for(unsigned int i = 0; i < s.get_pointer_to_raw_data() - wpos; i++)
-- 
2.43.0


From 5f549fe7a40f152a316b3b05eaef9693a6097951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 52/70] fix: limit the depth of nested resource directories

---
 src/pe_lib/pe_resources.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index b0627f2..67a8217 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -315,11 +315,19 @@ void resource_directory::get_minor_version(uint16_t minor_version)
     minor_version_ = minor_version;
 }
 
+//Maximum depth of nested resource directories
+//(directories are processed recursively, usual resources have three levels)
+static const uint32_t max_resource_directory_depth = 64;
+
 //Processes resource directory
-const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed)
+const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed, uint32_t depth = 0)
 {
     resource_directory ret;
-    
+
+    //Check depth of directory
+    if(depth >= max_resource_directory_depth)
+        throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
     //Check for resource loops
     if(!processed.insert(offset_to_directory).second)
         throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
@@ -387,7 +395,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         const auto& dirEntry = dir_entry.DirItem.DirEntry;
         if(dirEntry.DataIsDirectory)
         {
-            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed));
+            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed, depth + 1));
         }
         else
         {
-- 
2.43.0


From 0a0e991600a1fd745b06c3b6a6ac48592dd39592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 53/70] fix: a version info block which is almost 64 KB long
 must not stop the reader from advancing

---
 src/pe_lib/resource_version_info_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 3f0933a..9095689 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -182,7 +182,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                     //Navigate to next string block
-                    string_pos += pe_utils::align_up(string_block->Length, sizeof(uint32_t));
+                    string_pos += pe_utils::align_up(static_cast<uint32_t>(string_block->Length), sizeof(uint32_t));
                 }
 
 #ifdef PE_BLISS_WINDOWS
@@ -192,7 +192,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                 //Navigate to next string table block
-                string_table_pos += pe_utils::align_up(string_table->Length, sizeof(uint32_t));
+                string_table_pos += pe_utils::align_up(static_cast<uint32_t>(string_table->Length), sizeof(uint32_t));
             }
         }
         else if(info_type == VarFileInfo) //If we encountered VarFileInfo
@@ -236,7 +236,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 }
 
                 //Navigate to next var block
-                var_table_pos += pe_utils::align_up(var_table->Length, sizeof(uint32_t));
+                var_table_pos += pe_utils::align_up(static_cast<uint32_t>(var_table->Length), sizeof(uint32_t));
             }
         }
         else
@@ -245,7 +245,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         }
 
         //Navigate to next element in root block
-        child_pos += pe_utils::align_up(block->Length, sizeof(uint32_t));
+        child_pos += pe_utils::align_up(static_cast<uint32_t>(block->Length), sizeof(uint32_t));
     }
 
     return ret;
-- 
2.43.0


From 4fec23b03c1bd3ea82d64ba656383e7ad6386a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 54/70] fix: do not allocate more memory for debug data than
 the file can fill

---
 src/pe_lib/pe_base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 2565494..3decf2a 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1006,6 +1006,10 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     || directory.Type == image_debug_type_coff)
                     && directory.SizeOfData)
                 {
+                    //Don't allocate more memory than the file can fill
+                    if(directory.SizeOfData > filesize)
+                        throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
                     std::string data;
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
-- 
2.43.0


From 91284681d482e4997b73908fd268dec7b12f6a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 55/70] fix: new PE+ images must be marked as AMD64 ones

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 35b19fd..7511440 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -20,7 +20,7 @@ void pe_properties_generic<PEClassType>::create_pe(uint32_t section_alignment, u
 {
     memset(&nt_headers_, 0, sizeof(nt_headers_));
     nt_headers_.Signature = 0x4550; //"PE"
-    nt_headers_.FileHeader.Machine = 0x14C; //i386
+    nt_headers_.FileHeader.Machine = PEClassType::Id == image_nt_optional_hdr64_magic ? 0x8664 : 0x14C; //AMD64 or i386
     nt_headers_.FileHeader.SizeOfOptionalHeader = sizeof(nt_headers_.OptionalHeader);
     nt_headers_.OptionalHeader.Magic = PEClassType::Id;
     nt_headers_.OptionalHeader.ImageBase = 0x400000;
-- 
2.43.0


From a51aa83cbed0206a39ab536974238545f4727c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 56/70] fix: bound imports must be read from virtual data of a
 section as all other directories

---
 src/pe_lib/pe_bound_import.cpp | 4 ++--
 src/pe_lib/pe_rebuilder.cpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 3dc975b..69209da 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -115,12 +115,12 @@ const bound_import_module_list get_bound_import_module_list(const pe_base& pe)
         return ret;
 
     uint32_t bound_import_data_len =
-        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     if(bound_import_data_len < pe.get_directory_size(image_directory_entry_bound_import))
         throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     
-    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     //Check read in "read_pe" function raw bound import data size
     if(bound_import_data_len < sizeof(image_bound_import_descriptor))
diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 8e62fac..55dfa12 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -92,7 +92,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
 
     if(save_bound_import && pe.has_bound_import())
     {
-        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true)
+        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true)
             < pe.get_directory_size(image_directory_entry_bound_import))
             throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     }
-- 
2.43.0


From c6ee3784e90369568e42fcdd6e588d381690f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 57/70] fix: empty resource data lying at the end of a section
 must be readable

---
 src/pe_lib/pe_resources.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 67a8217..5f6717c 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -403,14 +403,19 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
             image_resource_data_entry data_entry = pe.section_data_from_rva<image_resource_data_entry>(
                 res_rva + dir_entry.DirItem.OffsetToData, section_data_virtual, true);
 
-            //Check byte count that stated by data entry
-            if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
-                throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+            //Empty data may lie at the very end of a section: there is nothing to read
+            std::string data;
+            if(data_entry.Size)
+            {
+                //Check byte count that stated by data entry
+                if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
+                    throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
+                data.assign(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size);
+            }
 
             //Add data entry to directory entry
-            entry.add_data_entry(resource_data_entry(
-                std::string(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size),
-                data_entry.CodePage));
+            entry.add_data_entry(resource_data_entry(data, data_entry.CodePage));
         }
 
         //Save directory entry
-- 
2.43.0


From 49457269012de2435c3ddf829801408c6f843e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 58/70] fix: virtual view of a section must follow changes of
 its virtual size

---
 src/pe_lib/pe_section.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_section.cpp b/src/pe_lib/pe_section.cpp
index bd5079d..31ab49d 100644
--- a/src/pe_lib/pe_section.cpp
+++ b/src/pe_lib/pe_section.cpp
@@ -151,6 +151,11 @@ void section::map_virtual(uint32_t section_alignment) const
         old_size_ = raw_data_.length();
         raw_data_.resize(aligned_virtual_size, 0);
     }
+    else if(old_size_ != static_cast<size_t>(-1) && raw_data_.length() != std::max<size_t>(old_size_, aligned_virtual_size))
+    {
+        //Virtual size has been changed since the data was mapped
+        raw_data_.resize(std::max<size_t>(old_size_, aligned_virtual_size), 0);
+    }
 }
 
 //Unmaps virtual section data
-- 
2.43.0


From e2e149f5fec1061d9cb5111ffce5040f1e915509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 59/70] fix: adding a resource directory entry of the same
 directory must not read freed memory

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 5f6717c..433f2f2 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -265,7 +265,7 @@ resource_directory::entry_list& resource_directory::get_entry_list()
 void resource_directory::add_resource_directory_entry(const resource_directory_entry& entry)
 {
     entries_.push_back(entry);
-    if(entry.is_named())
+    if(entries_.back().is_named()) //entry may be an element of this very list
         ++number_of_named_entries_;
     else
         ++number_of_id_entries_;
-- 
2.43.0


From 37e7222b65724ddbb2aec33537d7d0755f682455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 60/70] fix: assigning a resource directory from one below
 itself must not read freed memory

---
 src/pe_lib/pe_resources.cpp | 17 +++++++++++++++++
 src/pe_lib/pe_resources.h   |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 433f2f2..60c91e8 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -213,6 +213,23 @@ resource_directory::resource_directory(const image_resource_directory& dir)
     number_of_named_entries_(0), number_of_id_entries_(0) //Set to zero here, calculate on add
 {}
 
+//Copy assignment operator
+resource_directory& resource_directory::operator=(const resource_directory& other)
+{
+    //Copy first: other may be contained in an entry of this directory
+    entry_list entries(other.entries_);
+
+    characteristics_ = other.characteristics_;
+    timestamp_ = other.timestamp_;
+    major_version_ = other.major_version_;
+    minor_version_ = other.minor_version_;
+    number_of_named_entries_ = other.number_of_named_entries_;
+    number_of_id_entries_ = other.number_of_id_entries_;
+    entries_.swap(entries);
+
+    return *this;
+}
+
 //Returns characteristics of directory
 uint32_t resource_directory::get_characteristics() const
 {
diff --git a/src/pe_lib/pe_resources.h b/src/pe_lib/pe_resources.h
index 7035907..ccb6a89 100644
--- a/src/pe_lib/pe_resources.h
+++ b/src/pe_lib/pe_resources.h
@@ -120,6 +120,8 @@ public:
     resource_directory();
     //Constructor from data
     explicit resource_directory(const pe_win::image_resource_directory& dir);
+    //Copy assignment operator
+    resource_directory& operator=(const resource_directory& other);
 
     //Returns characteristics of directory
     uint32_t get_characteristics() const;
-- 
2.43.0


From be1dd3160d11870f5f184f2cdd67218bbf3026fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 61/70] fix: load configuration located in the headers must be
 read

---
 src/pe_lib/pe_load_config.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index bdc7de4..e41ea80 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -343,7 +343,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         throw pe_exception("Image does not have load config directory", pe_exception::directory_does_not_exist);
 
     //Get load config structure
-    typename PEClassType::ConfigStruct config_info = pe.section_data_from_rva<typename PEClassType::ConfigStruct>(pe.get_directory_rva(image_directory_entry_load_config), section_data_virtual);
+    typename PEClassType::ConfigStruct config_info = pe.section_data_from_rva<typename PEClassType::ConfigStruct>(pe.get_directory_rva(image_directory_entry_load_config), section_data_virtual, true);
 
     //Check size of config directory
     if(config_info.Size < sizeof(config_info))
@@ -359,7 +359,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
 
     //Read sorted SE handler RVA list (if any)
     for(typename PEClassType::BaseSize i = 0; i != config_info.SEHandlerCount; ++i)
-        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual));
+        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual, true));
 
     if(config_info.LockPrefixTable)
     {
@@ -367,7 +367,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         uint32_t current = 0;
         while(true)
         {
-            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual);
+            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual, true);
             if(!lock_prefix_va)
                 break;
 
-- 
2.43.0


From 5c0feb45278e9f15500af5c02305acfd83f2361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 62/70] fix: image in memory must keep its bound import
 directory after being saved

---
 src/pe_lib/pe_rebuilder.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 55dfa12..28f5dea 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -40,10 +40,12 @@ void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header
         - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes())
         + sections.size() * sizeof(image_section_header);
 
-    if(save_bound_import && pe.has_bound_import())
+    //Place for bound import directory, which will be put right after section headers
+    //It will be aligned to DWORD, because we're aligning to DWORD everything above it
+    const bool place_bound_import = save_bound_import && pe.has_bound_import();
+    const uint32_t bound_import_rva = static_cast<uint32_t>(ptr_to_section_data);
+    if(place_bound_import)
     {
-        //It will be aligned to DWORD, because we're aligning to DWORD everything above it
-        pe.set_directory_rva(image_directory_entry_bound_import, static_cast<uint32_t>(ptr_to_section_data));
         ptr_to_section_data += pe.get_directory_size(image_directory_entry_bound_import);    
     }
     
@@ -61,6 +63,9 @@ void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header
         pe.set_size_of_headers(static_cast<uint32_t>(ptr_to_section_data));
     }
 
+    if(place_bound_import)
+        pe.set_directory_rva(image_directory_entry_bound_import, bound_import_rva);
+
     //Set number of sections in PE header
     pe.update_number_of_sections();
 
@@ -102,7 +107,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     out.clear();
     
     uint32_t original_bound_import_rva = pe.has_bound_import() ? pe.get_directory_rva(image_directory_entry_bound_import) : 0;
-    if(original_bound_import_rva && original_bound_import_rva >= pe.get_size_of_headers())
+    if(original_bound_import_rva && original_bound_import_rva >= pe.get_full_headers_data().length())
     {
         //No need to do anything with bound import directory
         //if it is placed inside of any section, not headers
@@ -140,6 +145,11 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     out.write(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), pe.get_sizeof_nt_header()
         - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes()));
 
+    //Only saved file has bound import directory at its new place,
+    //headers data of this image remains the same
+    if(save_bound_import && original_bound_import_rva)
+        pe.set_directory_rva(image_directory_entry_bound_import, original_bound_import_rva);
+
     //Write section headers
     const section_list& sections = pe.get_image_sections();
     for(section_list::const_iterator it = sections.begin(); it != sections.end(); ++it)
-- 
2.43.0


From 3e1fa7bb2f21d056734c0038607e8c8967bc826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:25 +0000
Subject: [PATCH 63/70] fix: auxiliary COFF records beyond the symbol table
 must be refused

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index a3955af..7f01804 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -672,7 +672,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
                         //Check data length again
                         if(!pe_utils::is_sum_safe(i, sym->NumberOfAuxSymbols)
-                            || (i + sym->NumberOfAuxSymbols) > coff->NumberOfSymbols
+                            || (i + sym->NumberOfAuxSymbols) >= coff->NumberOfSymbols
                             || debug_data.length() < (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol + sym->NumberOfAuxSymbols * sizeof(image_symbol))
                             throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
-- 
2.43.0


From 71b0668fdbf931b88b349060b30beb50bfa1eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:25 +0000
Subject: [PATCH 64/70] fix: bitmaps with bit count implied by JPEG or PNG
 format have no color table

---
 src/pe_lib/resource_bitmap_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_bitmap_reader.cpp b/src/pe_lib/resource_bitmap_reader.cpp
index d8526f1..8070a8a 100644
--- a/src/pe_lib/resource_bitmap_reader.cpp
+++ b/src/pe_lib/resource_bitmap_reader.cpp
@@ -61,7 +61,7 @@ const std::string resource_bitmap_reader::create_bitmap(const std::string& resou
         //If color table is present, skip it
         if(info->biClrUsed != 0)
             header.bfOffBits += 4 * info->biClrUsed; //Add this size to offset to bitmap bits
-        else if(info->biBitCount <= 8)
+        else if(info->biBitCount != 0 && info->biBitCount <= 8) //No color table if bit count is implied by JPEG or PNG format
             header.bfOffBits += 4 * static_cast<uint32_t>(std::pow(2.f, info->biBitCount)); //Add this size to offset to bitmap bits
     }
 
-- 
2.43.0


From eb04de5c8d1666e7999b9c87247b0e8cb0928083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:04 +0000
Subject: [PATCH 65/70] fix: refuse 32-bit VA conversion when image base of PE+
 does not fit 32 bits

---
 src/pe_lib/pe_properties_generic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 7511440..0348515 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -507,7 +507,9 @@ uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint64_t va, bool bound_c
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::rva_to_va_32(uint32_t rva) const
 {
-    if(!pe_utils::is_sum_safe(rva, static_cast<uint32_t>(nt_headers_.OptionalHeader.ImageBase)))
+    //Image base of PE+ may not fit 32-bit VA
+    if(nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword
+        || !pe_utils::is_sum_safe(rva, static_cast<uint32_t>(nt_headers_.OptionalHeader.ImageBase)))
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(rva + nt_headers_.OptionalHeader.ImageBase);
-- 
2.43.0


From cb2081ec402eae49cd32d288d731cc1428426e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:59 +0000
Subject: [PATCH 66/70] fix: refuse adding and growing sections beyond 32-bit
 address space

---
 src/pe_lib/pe_base.cpp | 20 ++++++++++++++++++++
 src/pe_lib/pe_base.h   |  3 +++
 2 files changed, 23 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 3decf2a..3227a3d 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -343,6 +343,10 @@ void pe_base::set_section_virtual_size(section& s, uint32_t vsize)
     if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't change virtual size of any section, except last one", pe_exception::error_changing_section_virtual_size);
 
+    //Check that last section of the image still fits the address space
+    if(&s == &sections_.back())
+        check_section_range(s.get_virtual_address(), vsize);
+
     //If we're setting virtual size to zero
     if(vsize == 0)
     {
@@ -373,6 +377,10 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
     if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't expand any section, except last one", pe_exception::error_expanding_section);
 
+    //Check possible overflow
+    if(!pe_utils::is_sum_safe(needed_rva - s.get_virtual_address(), needed_size))
+        throw pe_exception("Section size is too big", pe_exception::error_expanding_section);
+
     //Check if we should expand our section
     if(expand == expand_section_raw && section_data_length_from_rva(s, needed_rva, section_data_raw) < needed_size)
     {
@@ -455,6 +463,7 @@ void pe_base::prepare_section(section& s)
     else
     {
         //Else calculate its virtual size
+        check_section_range(0, s.get_virtual_size());
         s.set_virtual_size(
             std::max<uint32_t>(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()),
             pe_utils::align_up(s.get_virtual_size(), get_section_alignment())));
@@ -474,6 +483,7 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     if(!sections_.empty())
     {
         s.set_virtual_address(pe_utils::align_up(sections_.back().get_virtual_address() + sections_.back().get_aligned_virtual_size(get_section_alignment()), get_section_alignment()));
+        check_section_range(s.get_virtual_address(), s.get_virtual_size());
 
         //We should align last section raw size, if it wasn't aligned
         section& last = sections_.back();
@@ -487,6 +497,7 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
             s.get_virtual_address() == 0
             ? pe_utils::align_up(get_size_of_headers(), get_section_alignment())
             : pe_utils::align_up(s.get_virtual_address(), get_section_alignment()));
+        check_section_range(s.get_virtual_address(), s.get_virtual_size());
     }
 
     //Add section to the end of section list
@@ -499,6 +510,15 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     return sections_.back();
 }
 
+//Checks that section with supplied virtual address and size fits 32-bit address space
+//(the same limits are checked when image is read)
+void pe_base::check_section_range(uint32_t virtual_address, uint32_t virtual_size) const
+{
+    const uint32_t aligned_size = pe_utils::align_up(virtual_size, get_section_alignment());
+    if(virtual_size > pe_utils::two_gb || !pe_utils::is_sum_safe(virtual_address, aligned_size))
+        throw pe_exception("Section doesn't fit image address space", pe_exception::section_incorrect_addr_or_size);
+}
+
 //Returns true if sectios "s" is already attached to this PE file
 bool pe_base::section_attached(const section& s) const
 {
diff --git a/src/pe_lib/pe_base.h b/src/pe_lib/pe_base.h
index b340824..6178721 100644
--- a/src/pe_lib/pe_base.h
+++ b/src/pe_lib/pe_base.h
@@ -456,6 +456,9 @@ public: //IMAGE SECTIONS
     //Section must be prepared by this function before calling add_section
     void prepare_section(section& s);
 
+    //Checks that section with supplied virtual address and size fits 32-bit address space
+    void check_section_range(uint32_t virtual_address, uint32_t virtual_size) const;
+
     //Returns true if sectios "s" is already attached to this PE file
     bool section_attached(const section& s) const;
 
-- 
2.43.0


From 9db5f4c4ad067142c8df743ce4eb3009b31a2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:57 +0000
Subject: [PATCH 67/70] fix: export directory without names may lie in the very
 end of a section

---
 src/pe_lib/pe_exports.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index c086456..79c564d 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -326,7 +326,8 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
             < exports.NumberOfFunctions * sizeof(uint32_t))
             throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-        if(exports.AddressOfNames)
+        //Tables of no names are never read
+        if(exports.AddressOfNames && exports.NumberOfNames)
         {
             //Check if it is enough bytes to hold name and ordinal tables
             if(pe.section_data_length_from_rva(exports.AddressOfNameOrdinals, exports.AddressOfNameOrdinals, section_data_virtual, true)
-- 
2.43.0


From 4ea892be3710a07fc94e4b9ec4ae9d06ec26700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:15 +0000
Subject: [PATCH 68/70] fix: headers of an image are never read beyond the end
 of its file

---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 3227a3d..9a28648 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -990,7 +990,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             {
                 if(!(*i).empty())
                 {
-                    size_of_headers = std::min<uint32_t>(get_size_of_headers(), (*i).get_pointer_to_raw_data());
+                    size_of_headers = std::min<uint32_t>(size_of_headers, (*i).get_pointer_to_raw_data());
                     break;
                 }
             }
-- 
2.43.0


From e6f8a3e826ddc853d5cc27cc4ff2dae4c939ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:52 +0000
Subject: [PATCH 69/70] fix: refuse to write resource names and directories
 whose lengths do not fit WORDs

---
 src/pe_lib/pe_resources.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 60c91e8..3c6efb5 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -447,16 +447,28 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 void calculate_resource_data_space(const resource_directory& root, uint32_t aligned_offset_from_section_start, uint32_t& needed_size_for_structures, uint32_t& needed_size_for_strings)
 {
     needed_size_for_structures += sizeof(image_resource_directory);
+    size_t named_entries = 0;
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
         needed_size_for_structures += sizeof(image_resource_directory_entry);
 
+        //Lengths of names are WORDs
+        if((*it).is_named() && (*it).get_name().length() > pe_utils::max_word)
+            throw pe_exception("Resource name is too long", pe_exception::incorrect_resource_directory);
+
         if((*it).is_named())
+        {
+            ++named_entries;
             needed_size_for_strings += static_cast<uint32_t>(((*it).get_name().length() + 1) * 2 /* unicode */ + sizeof(uint16_t) /* for string length */);
+        }
 
         if(!(*it).includes_data())
             calculate_resource_data_space((*it).get_resource_directory(), aligned_offset_from_section_start, needed_size_for_structures, needed_size_for_strings);
     }
+
+    //Numbers of entries are WORDs, too
+    if(named_entries > pe_utils::max_word || root.get_entry_list().size() - named_entries > pe_utils::max_word)
+        throw pe_exception("Too many resource directory entries", pe_exception::incorrect_resource_directory);
 }
 
 //Helper function to calculate needed space for resource data
-- 
2.43.0


From 84964bdaa395fe5796fc331baea666e2ecd9d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:22 +0000
Subject: [PATCH 70/70] fix: refuse to write relocations which do not fit
 relocation table entries

---
 src/pe_lib/pe_relocations.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 9994584..61c4d92 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -189,6 +189,14 @@ const image_directory rebuild_relocations(pe_base& pe, const relocation_table_li
         //End of each table will be DWORD-aligned
         if((start_reloc_pos + needed_size - size_delta) % sizeof(uint32_t))
             needed_size += sizeof(uint16_t); //Align it with IMAGE_REL_BASED_ABSOLUTE relocation
+
+        //Check that all relocations of the table can be saved (12 bits for relative RVA and 4 bits for type)
+        const relocation_table::relocation_list& reloc_list = (*it).get_relocations();
+        for(relocation_table::relocation_list::const_iterator r = reloc_list.begin(); r != reloc_list.end(); ++r)
+        {
+            if((*r).get_rva() >= (1 << 12) || (*r).get_type() >= (1 << 4))
+                throw pe_exception("Relocation doesn't fit relocation table entry", pe_exception::incorrect_relocation_directory);
+        }
     }
 
     //Check if reloc_section is last one. If it's not, check if there's enough place for relocations data
-- 
2.43.0

