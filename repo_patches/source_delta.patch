From dd6a0bb353c82f8044ea26348ecef8e33c6b7e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 01/36] fix: check resource directory name length in bytes, not
 in characters

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4dfec8..22ee39a 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -367,7 +367,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 
             //Check name length
             if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
-                < directory_name_length)
+                < directory_name_length * sizeof(uint16_t))
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
-- 
2.43.0


From f911212e65514bd2cdcb6cf00e2fe3bdadbe5dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 02/36] fix: check resource string table entry length in bytes,
 not in characters

---
 src/pe_lib/resource_string_table_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_string_table_reader.cpp b/src/pe_lib/resource_string_table_reader.cpp
index 5ebbe61..da95df5 100644
--- a/src/pe_lib/resource_string_table_reader.cpp
+++ b/src/pe_lib/resource_string_table_reader.cpp
@@ -38,7 +38,7 @@ const resource_string_list resource_string_table_reader::parse_string_list(uint3
         passed_bytes += sizeof(uint16_t); //WORD containing string length
 
         //Check resource data length again
-        if(resource_data.length() < string_length + passed_bytes)
+        if(resource_data.length() < string_length * sizeof(uint16_t) + passed_bytes)
             throw pe_exception("Incorrect resource string table", pe_exception::resource_incorrect_string_table);
 
         if(string_length)
-- 
2.43.0


From 396bc111df4fa3259f2216b80fc36410d6997f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 03/36] fix: check version info string value length in bytes,
 not in characters

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 404914e..6ad28ed 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -165,7 +165,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         //Get value position
                         uint32_t value_pos = get_version_block_value_pos(string_pos, reinterpret_cast<const unicode16_t*>(string_block->Key));
                         //Check it
-                        if(resource_data.length() < value_pos + string_block->ValueLength)
+                        if(resource_data.length() < value_pos + string_block->ValueLength * sizeof(uint16_t))
                             throw pe_exception("Incorrect resource version info", pe_exception::resource_incorrect_version_info);
 
                         //Get UNICODE string value
-- 
2.43.0


From 9f77d8e7d557a513dbbbfc13cea7aa8ce62b5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 04/36] fix: do not read a partial translation pair past the
 end of version info

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 6ad28ed..3f0933a 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -225,7 +225,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         throw_incorrect_version_info();
 
                     //Get list of translations: pairs of LANGUAGE_ID - CODEPAGE_ID
-                    for(uint32_t i = 0; i < var_table->ValueLength; i += sizeof(uint16_t) * 2)
+                    for(uint32_t i = 0; i + sizeof(uint16_t) * 2 <= var_table->ValueLength; i += sizeof(uint16_t) * 2)
                     {
                         //Pair of WORDs
                         uint16_t lang_id = *reinterpret_cast<const uint16_t*>(resource_data.data() + value_pos + i);
-- 
2.43.0


From bc92bf852b1dee7c8bf7d74ab6cf2a50181c2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 05/36] fix: check the whole cursor group size when looking for
 a single cursor

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index c519124..cc258bd 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -420,7 +420,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
     const cursor_header* info = reinterpret_cast<const cursor_header*>(cursor_group_resource_data.data());
 
     //Check resource data length
-    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group))
+    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group) * info->Count)
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
     //Iterate over all cursors listed in cursor group
-- 
2.43.0


From 8fd9fb3ada9e8af91e867737a4032022684e624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 06/36] fix: do not read past the end of the stub overlay when
 looking for rich data

---
 src/pe_lib/pe_rich_data.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_rich_data.cpp b/src/pe_lib/pe_rich_data.cpp
index 807915c..2276841 100644
--- a/src/pe_lib/pe_rich_data.cpp
+++ b/src/pe_lib/pe_rich_data.cpp
@@ -60,7 +60,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     //Search for rich data overlay ID
     const char* begin = &rich_overlay[0];
     const char* end = begin + rich_overlay.length();
-    for(; begin != end; ++begin)
+    for(; end - begin >= static_cast<std::ptrdiff_t>(sizeof(uint32_t)); ++begin)
     {
         if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
         {
@@ -73,7 +73,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     if(found)
     {
         //Check remaining length
-        if(static_cast<size_t>(end - begin) < sizeof(uint32_t))
+        if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 2)
             return ret;
 
         //The XOR key is after "Rich" word, we should get it
@@ -84,7 +84,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
 
         //Second search for signature "DanS"
         begin = &rich_overlay[0];
-        for(; begin != end; ++begin)
+        for(; end - begin >= static_cast<std::ptrdiff_t>(sizeof(uint32_t)); ++begin)
         {
             if((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) == 0x536e6144) //"DanS"
             {
@@ -101,7 +101,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
             while(begin < end)
             {
                 begin += sizeof(uint32_t);
-                if(begin >= end)
+                if(end - begin < static_cast<std::ptrdiff_t>(sizeof(uint32_t)))
                     break;
 
                 //Check for rich overlay data end ("Rich" word reached)
@@ -114,7 +114,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
                 data.set_version((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) & 0xFFFF);
 
                 begin += sizeof(uint32_t);
-                if(begin >= end)
+                if(end - begin < static_cast<std::ptrdiff_t>(sizeof(uint32_t)))
                     break;
 
                 data.set_times(*reinterpret_cast<const uint32_t*>(begin) ^ xorkey);
-- 
2.43.0


From 1cc4991739ccd11f0797da261e3f9f4722f772e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 07/36] fix: use the documented operation codes for saving XMM
 registers and machine frames

---
 src/pe_lib/pe_structures.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_structures.h b/src/pe_lib/pe_structures.h
index c5d1e41..2154ce9 100644
--- a/src/pe_lib/pe_structures.h
+++ b/src/pe_lib/pe_structures.h
@@ -714,7 +714,7 @@ enum unwind_op_codes
     uwop_set_fpreg,       /* no info, FP = RSP + UNWIND_INFO.FPRegOffset*16 */
     uwop_save_nonvol,     /* info == register number, offset in next slot */
     uwop_save_nonvol_far, /* info == register number, offset in next 2 slots */
-    uwop_save_xmm128,     /* info == XMM reg number, offset in next slot */
+    uwop_save_xmm128 = 8, /* info == XMM reg number, offset in next slot */
     uwop_save_xmm128_far, /* info == XMM reg number, offset in next 2 slots */
     uwop_push_machframe   /* info == 0: no error-code, 1: error-code */
 };
-- 
2.43.0


From 4f15b88df14a78b7af9850d8595171af1f00dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 08/36] fix: reject MISC debug records shorter than their
 header

---
 src/pe_lib/pe_debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5dc2f6e..ba6a69f 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -817,7 +817,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
                     const image_debug_misc* misc_data = reinterpret_cast<const image_debug_misc*>(debug_data.data());
 
                     //Check misc data length
-                    if(debug_data.length() < misc_data->Length /* Total length of record */)
+                    if(debug_data.length() < misc_data->Length /* Total length of record */
+                        || misc_data->Length < sizeof(image_debug_misc) - 1 /* BYTE[1] in the end of structure */)
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Save advanced information
-- 
2.43.0


From 9177d12860522be2255fff63fb6fc0a9b845356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 09/36] fix: read COFF file names from the symbol table, not
 from the start of debug data

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index ba6a69f..06cdc5a 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -677,7 +677,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                         if(sym->StorageClass == image_sym_class_file)
                         {
                             //Save file name, it is situated just after this IMAGE_SYMBOL structure
-                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
+                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol), sym->NumberOfAuxSymbols * sizeof(image_symbol));
                             pe_utils::strip_nullbytes(file_name);
                             symbol.set_file_name(file_name);
 
-- 
2.43.0


From 687c1f877021807e2cbc4efac4a80d4767fdeef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 10/36] fix: set the requested CodeView debug information type

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 06cdc5a..4298cd7 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -298,7 +298,7 @@ const coff_debug_info debug_info::get_advanced_debug_info<coff_debug_info>() con
 void debug_info::set_advanced_info_type(advanced_info_type type)
 {
     free_present_advanced_info();
-    if(advanced_info_type_ >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
+    if(type >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
         advanced_info_type_ = type;
 }
 
-- 
2.43.0


From 49b058de10d3e0a6c12725f893b57f6d97903c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 11/36] fix: keep advanced debug information on self-assignment
 of debug info

---
 src/pe_lib/pe_debug.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 4298cd7..81b1d73 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -138,6 +138,9 @@ debug_info::debug_info(const debug_info& info)
 //Copy assignment operator
 debug_info& debug_info::operator=(const debug_info& info)
 {
+    if(this == &info)
+        return *this;
+
     copy_advanced_info(info);
 
     characteristics_ = info.characteristics_;
-- 
2.43.0


From 91520540394b58fc0d8b3acf6c897628238dc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 12/36] fix: no directory exists when the image has no data
 directories

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 40abf8c..a842206 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -44,7 +44,7 @@ pe_properties_generic<PEClassType>::~pe_properties_generic()
 template<typename PEClassType>
 bool pe_properties_generic<PEClassType>::directory_exists(uint32_t id) const
 {
-    return (nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1) >= id &&
+    return nt_headers_.OptionalHeader.NumberOfRvaAndSizes > id &&
         nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;
 }
 
-- 
2.43.0


From b6693feff18a138b15aaf18a195fd4e95186c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 13/36] fix: do not keep debug data that could not be read

---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7dcff57..81e13f0 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1006,7 +1006,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
                     file.read(&data[0], directory.SizeOfData);
-                    if(file.bad() || file.eof())
+                    if(file.bad() || file.fail())
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
 
                     debug_data_.insert(std::make_pair(directory.PointerToRawData, data));
-- 
2.43.0


From 758c745b246c31b94d708b73501fa1ce01a5e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 14/36] fix: reject sections whose aligned virtual end exceeds
 32 bits

---
 src/pe_lib/pe_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 81e13f0..5374667 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -927,7 +927,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         }
 
         //Check virtual address and size of section
-        if(s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
+        if(!pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment()))
+            || s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
             throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
 
         //Save section
-- 
2.43.0


From abf705cc488de75bc7b318ddaa394c076b10df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 15/36] fix: restore the stream position when the stream is in
 a failed state

---
 src/pe_lib/pe_base.cpp     | 12 ++++++------
 src/pe_lib/pe_checksum.cpp |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 5374667..9e2acb1 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -32,17 +32,17 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
+        file.clear();
         file.seekg(old_offset);
         file.exceptions(state);
-        file.clear();
         //Rethrow
         throw;
     }
 
     //Restore istream state
+    file.clear();
     file.seekg(old_offset);
     file.exceptions(state);
-    file.clear();
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
@@ -1075,17 +1075,17 @@ pe_type pe_base::get_pe_type(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
         file.clear();
+        file.seekg(old_offset);
+        file.exceptions(state);
         //Retrhow exception
         throw;
     }
 
     //Restore stream state
-    file.exceptions(state);
-    file.seekg(old_offset);
     file.clear();
+    file.seekg(old_offset);
+    file.exceptions(state);
 
     //Determine PE type and return it
     return nt_headers.OptionalHeader.Magic == image_nt_optional_hdr64_magic ? pe_type_64 : pe_type_32;
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 2125780..c855fec 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -64,17 +64,17 @@ uint32_t calculate_checksum(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
         file.clear();
+        file.seekg(old_offset);
+        file.exceptions(state);
         //Rethrow
         throw;
     }
 
     //Restore istream state
-    file.exceptions(state);
-    file.seekg(old_offset);
     file.clear();
+    file.seekg(old_offset);
+    file.exceptions(state);
 
     //Return checksum
     return static_cast<uint32_t>(checksum);    
-- 
2.43.0


From f730414fc239ba78aba9fb295218b93404a47dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 16/36] fix: free image properties when an image cannot be read

---
 src/pe_lib/pe_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 9e2acb1..32905ef 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -31,7 +31,8 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     }
     catch(const std::exception&)
     {
-        //If something went wrong, restore istream state
+        //If something went wrong, free image properties and restore istream state
+        delete props_;
         file.clear();
         file.seekg(old_offset);
         file.exceptions(state);
-- 
2.43.0


From ed420a07e5554cbe5766a786d067e7920e7d6ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 17/36] fix: keep image properties on self-assignment

---
 src/pe_lib/pe_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 32905ef..e17fd3b 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -95,9 +95,9 @@ pe_base& pe_base::operator=(const pe_base& pe)
     has_overlay_ = pe.has_overlay_;
     full_headers_data_ = pe.full_headers_data_;
     debug_data_ = pe.debug_data_;
+    pe_properties* props = pe.props_->duplicate().release();
     delete props_;
-    props_ = 0;
-    props_ = pe.props_->duplicate().release();
+    props_ = props;
 
     return *this;
 }
-- 
2.43.0


From f4c7f96eedccadea013f0e0c55ecf345d3f174cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 18/36] fix: keep resource directory entry contents on
 self-assignment

---
 src/pe_lib/pe_resources.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 22ee39a..927e186 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,6 +68,9 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
+    if(this == &other)
+        return *this;
+
     release();
 
     id_ = other.id_;
-- 
2.43.0


From c39249a054c0abd11af4312a1a1f34b2f8da9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 19/36] fix: do not use a DOS header that could not be read

---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index e17fd3b..969524c 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -765,7 +765,7 @@ void pe_base::read_dos_header(std::istream& file, image_dos_header& header)
 
     //Read DOS header and check istream
     file.read(reinterpret_cast<char*>(&header), sizeof(image_dos_header));
-    if(file.bad() || file.eof())
+    if(file.bad() || file.fail())
         throw pe_exception("Unable to read IMAGE_DOS_HEADER", pe_exception::bad_dos_header);
 
     //Check DOS header magic
-- 
2.43.0


From a1ad912921694dd9b9b8dbefc4cc84a1ae217788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 20/36] fix: resource_directory_entry: adding the entry's own
 data or directory used it after deletion

---
 src/pe_lib/pe_resources.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 927e186..7a9696a 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -192,16 +192,20 @@ void resource_directory_entry::set_id(uint32_t id)
 //Adds resource_data_entry
 void resource_directory_entry::add_data_entry(const resource_data_entry& entry)
 {
+    //Copy first: "entry" may be the one this entry already owns
+    resource_data_entry* data = new resource_data_entry(entry);
     release();
-    ptr_.data_ = new resource_data_entry(entry);
+    ptr_.data_ = data;
     includes_data_ = true;
 }
 
 //Adds resource_directory
 void resource_directory_entry::add_resource_directory(const resource_directory& dir)
 {
+    //Copy first: "dir" may be the one this entry already owns
+    resource_directory* directory = new resource_directory(dir);
     release();
-    ptr_.dir_ = new resource_directory(dir);
+    ptr_.dir_ = directory;
     includes_data_ = false;
 }
 
-- 
2.43.0


From 8f9c4efca47ceee4d9e4bd03093c0746ee0076d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 21/36] fix: resource_directory_entry: assigning an entry of
 the own directory used it after deletion

---
 src/pe_lib/pe_resources.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 7a9696a..1f94c69 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -71,21 +71,14 @@ resource_directory_entry& resource_directory_entry::operator=(const resource_dir
     if(this == &other)
         return *this;
 
-    release();
-
-    id_ = other.id_;
-    name_ = other.name_;
-    includes_data_ = other.includes_data_;
-    named_ = other.named_;
-
-    //If other union'ed pointer is not zero
-    if(other.ptr_.data_)
-    {
-        if(other.includes_data())
-            ptr_.data_ = new resource_data_entry(*other.ptr_.data_);
-        else
-            ptr_.dir_ = new resource_directory(*other.ptr_.dir_);
-    }
+    //Copy first: "other" may belong to the directory this entry owns
+    resource_directory_entry copy(other);
+
+    std::swap(id_, copy.id_);
+    name_.swap(copy.name_);
+    std::swap(ptr_, copy.ptr_);
+    std::swap(includes_data_, copy.includes_data_);
+    std::swap(named_, copy.named_);
 
     return *this;
 }
-- 
2.43.0


From 8b85a2831ed90d5ba05eea34a5d85663c7809bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 22/36] fix: pe_base: image properties leaked when the stream
 throws outside of the guarded part of the constructor

---
 src/pe_lib/pe_base.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 969524c..1d53338 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -16,7 +16,8 @@ using namespace pe_win;
 //Constructor
 pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_from_mem, bool read_debug_raw_data)
 {
-    props_ = props.duplicate().release();
+    std::unique_ptr<pe_properties> new_props(props.duplicate());
+    props_ = new_props.get();
 
     //Save istream state
     std::ios_base::iostate state = file.exceptions();
@@ -31,8 +32,7 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     }
     catch(const std::exception&)
     {
-        //If something went wrong, free image properties and restore istream state
-        delete props_;
+        //If something went wrong, restore istream state
         file.clear();
         file.seekg(old_offset);
         file.exceptions(state);
@@ -44,6 +44,9 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     file.clear();
     file.seekg(old_offset);
     file.exceptions(state);
+
+    //Image properties are now owned by this instance
+    new_props.release();
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
-- 
2.43.0


From 6e8c8dafed2c06ed235f47a32fec6851c17590f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 23/36] fix: resource_directory::entry_finder: id left
 uninitialised when searching by name

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 1f94c69..8961453 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -670,7 +670,7 @@ bool resource_directory::name_entry_finder::operator()(const resource_directory_
 
 //Finds resource_directory_entry by name or ID (universal)
 resource_directory::entry_finder::entry_finder(const std::wstring& name)
-    :name_(name), named_(true)
+    :name_(name), id_(0), named_(true)
 {}
 
 resource_directory::entry_finder::entry_finder(uint32_t id)
-- 
2.43.0


From 0229c4b69a00ece22fd166365b0856d1b6f0648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 24/36] fix: report exports forwarded by ordinal only as
 forwarded

---
 src/pe_lib/pe_exports.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 10ee7f0..8a29fd9 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -383,26 +383,26 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
                     func.set_name(func_name);
                     func.set_name_ordinal(ordinal2);
 
-                    //If the function is just a redirect, save its name
-                    if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
-                        rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
-                    {
-                        if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                    break;
+                }
+            }
 
-                        //Get forwarded function name pointer
-                        const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
+            //If the function is just a redirect, save its name
+            if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
+                rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
+            {
+                if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                        //Check for null-termination
-                        if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                //Get forwarded function name pointer
+                const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
 
-                        //Set the name of forwarded function
-                        func.set_forwarded_name(forwarded_func_name);
-                    }
+                //Check for null-termination
+                if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                    break;
-                }
+                //Set the name of forwarded function
+                func.set_forwarded_name(forwarded_func_name);
             }
 
             //Add function info to output array
-- 
2.43.0


From 5b776da175a7ced409dedd4b40fa7ba2d9a65f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 25/36] fix: advance the import address table position after an
 ordinal import

---
 src/pe_lib/pe_imports.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 51b5b3f..7cdd434 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -656,6 +656,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         else
                         {
                             memcpy(&raw_data[current_pos_for_iat], &thunk_value, sizeof(thunk_value));
+                            current_pos_for_iat += sizeof(thunk_value);
                         }
                     }
                 }
-- 
2.43.0


From 1fde5d5ddbcafcf22c5cd80d2913e0e503c5ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 26/36] fix: write the ending null descriptor of the bound
 import directory

---
 src/pe_lib/pe_bound_import.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 985ebf4..97d1741 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -273,6 +273,9 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
         }
     }
 
+    //Ending null descriptor
+    memset(&raw_data[current_pos_for_structures], 0, sizeof(image_bound_import_descriptor));
+
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(imports_section, auto_strip_last_section);
     
-- 
2.43.0


From 7636b6a54f7d95d2ea42073fb55d5626b35686d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 27/36] fix: rebuild an empty list of exports with no function
 addresses

---
 src/pe_lib/pe_exports.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 8a29fd9..6ae0be7 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -489,7 +489,10 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     uint32_t ordinal_base = static_cast<uint32_t>(-1); //Minimum ordinal value
     
     if(exports.empty())
+    {
         ordinal_base = info.get_ordinal_base();
+        max_ordinal = ordinal_base - 1; //No functions at all
+    }
 
     uint32_t needed_size_for_function_names = 0; //Needed space for function name strings
     uint32_t needed_size_for_function_forwards = 0; //Needed space for function forwards names
-- 
2.43.0


From 6165732800576c6e4969936cd295a60ae611202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 28/36] fix: do not read beyond the TLS raw data when writing
 it

---
 src/pe_lib/pe_tls.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index e639cb0..30eefda 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -310,6 +310,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
                 write_raw_data_size = available_raw_length; //We'll write just a part of full raw data
         }
 
+        //Don't read more data than we have
+        if(info.get_raw_data().length() < write_raw_data_size)
+            write_raw_data_size = static_cast<uint32_t>(info.get_raw_data().length());
+
         //Write raw TLS data, if any
         if(write_raw_data_size != 0)
             memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
-- 
2.43.0


From aea908da0047f86fe59e09a0dc98681b8c497193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 29/36] fix: do not write the last TLS callback element beyond
 the raw data of the section

---
 src/pe_lib/pe_tls.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 30eefda..05dcf0a 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -336,7 +336,8 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         }
 
         //Check if there's enough space to write callbacks TLS data...
-        if(pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true)
+        uint32_t available_callback_size = pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true);
+        if(available_callback_size
             < needed_callback_size - sizeof(typename PEClassType::BaseSize) /* last zero element can be virtual only */)
             throw pe_exception("Insufficient space for TLS callbacks data", pe_exception::insufficient_space);
         
@@ -358,7 +359,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         //Ending null element
         callbacks_virtual_addresses.push_back(0);
 
-        //Write callbacks TLS data
+        //Write callbacks TLS data (last zero element may be virtual only)
+        if(available_callback_size < needed_callback_size)
+            needed_callback_size = available_callback_size;
+
         memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], needed_callback_size);
     }
     
-- 
2.43.0


From 91570caa7b750c9634e63005db6e790aedf82b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 30/36] fix: do not cut the section data that follows the
 rebuilt imports

---
 src/pe_lib/pe_imports.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7cdd434..8dbf149 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -460,6 +460,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
 
     std::string& raw_data = import_section.get_raw_data();
+    const size_t initial_raw_length = raw_data.length();
 
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
@@ -734,7 +735,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     //Strip data a little, if we saved some place
     //We're allocating more space than needed, if present original IAT and IAT are saved
-    raw_data.resize(current_pos_for_original_iat);
+    //Do not strip data which was in the section before
+    raw_data.resize(current_pos_for_original_iat < initial_raw_length ? initial_raw_length : current_pos_for_original_iat);
 
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
-- 
2.43.0


From a1c7a31cf6bd45e8921186773bd3d73212ca4655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 31/36] fix: make enough space for resource data whatever the
 order of the entries

---
 src/pe_lib/pe_resources.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 8961453..92addb4 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -441,7 +441,8 @@ void calculate_resource_data_space(const resource_directory& root, uint32_t need
     {
         if((*it).includes_data())
         {
-            uint32_t data_size = static_cast<uint32_t>((*it).get_data_entry().get_data().length()
+            //Entries are sorted later, so the space for alignment must not depend on their order
+            uint32_t data_size = static_cast<uint32_t>(pe_utils::align_up(static_cast<uint32_t>((*it).get_data_entry().get_data().length()), sizeof(uint32_t))
                 + sizeof(image_resource_data_entry)
                 + (pe_utils::align_up(current_data_pos, sizeof(uint32_t)) - current_data_pos) /* alignment */);
             needed_size_for_data += data_size;
-- 
2.43.0


From 223903bd4d2517663ef4799e3dffa01cd8f96300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 32/36] fix: do not read beyond the raw data of a section when
 writing an image

---
 src/pe_lib/pe_rebuilder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index eb9888d..340b5d5 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -165,7 +165,13 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
             out.put(0);
 
         //Write raw section data
-        out.write(s.get_raw_data().data(), s.get_size_of_raw_data());
+        const std::string& raw_data = s.get_raw_data();
+        const size_t size_of_raw_data = s.get_size_of_raw_data();
+        out.write(raw_data.data(), raw_data.length() < size_of_raw_data ? raw_data.length() : size_of_raw_data);
+
+        //Raw data may be shorter than its aligned size
+        for(size_t i = raw_data.length(); i < size_of_raw_data; ++i)
+            out.put(0);
     }
 }
 }
-- 
2.43.0


From 576ec44854ded1bf746f3d6a8a2bfe9b2fee129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 33/36] fix: do not keep old file pointers of sections without
 raw data when writing an image

---
 src/pe_lib/pe_rebuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 340b5d5..015c590 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -77,6 +77,11 @@ void rebuild_pe(pe_base& pe, image_dos_header& dos_header, bool strip_dos_header
             (*it).set_pointer_to_raw_data(static_cast<uint32_t>(ptr_to_section_data));
             ptr_to_section_data += (*it).get_aligned_raw_size(pe.get_file_alignment());
         }
+        else
+        {
+            //Section has no data in file; an old pointer could make other sections be written to wrong places
+            (*it).set_pointer_to_raw_data(0);
+        }
     }
 }
 
-- 
2.43.0


From a06af2f232f29b12b65b1722eb09c1c83beb6c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 34/36] fix: do not report an overlay when the last section has
 no data in the file

---
 src/pe_lib/pe_base.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 1d53338..68490a8 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -864,7 +864,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             throw pe_exception("Cannot reach section headers", pe_exception::image_section_headers_not_found);
     }
 
-    uint32_t last_raw_size = 0;
+    //End of headers and sections data in the file
+    uint32_t last_raw_end = get_size_of_headers();
 
     //Read all sections
     for(int i = 0; i < get_number_of_sections(); i++)
@@ -891,8 +892,11 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         {
             //If section has raw data
 
+            //Save end of raw data (sum is already checked)
+            if(s.get_pointer_to_raw_data() + s.get_size_of_raw_data() > last_raw_end)
+                last_raw_end = s.get_pointer_to_raw_data() + s.get_size_of_raw_data();
+
             //If section raw data size is greater than virtual, fix it
-            last_raw_size = s.get_size_of_raw_data();
             if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
@@ -958,7 +962,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     }
 
     //Check if image has overlay in the end of file
-    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(sections_.back().get_pointer_to_raw_data() + last_raw_size);
+    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(last_raw_end);
 
     {
         //Additionally, read data from the beginning of istream to size of headers
-- 
2.43.0


From acffb9a07abd03b55423fece74ae780fd989f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 35/36] fix: version info blocks with a length above 65532 no
 longer make the reader loop forever

---
 src/pe_lib/resource_version_info_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 3f0933a..311a55c 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -182,7 +182,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                     //Navigate to next string block
-                    string_pos += pe_utils::align_up(string_block->Length, sizeof(uint32_t));
+                    string_pos += pe_utils::align_up<uint32_t>(string_block->Length, sizeof(uint32_t));
                 }
 
 #ifdef PE_BLISS_WINDOWS
@@ -192,7 +192,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                 //Navigate to next string table block
-                string_table_pos += pe_utils::align_up(string_table->Length, sizeof(uint32_t));
+                string_table_pos += pe_utils::align_up<uint32_t>(string_table->Length, sizeof(uint32_t));
             }
         }
         else if(info_type == VarFileInfo) //If we encountered VarFileInfo
@@ -236,7 +236,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 }
 
                 //Navigate to next var block
-                var_table_pos += pe_utils::align_up(var_table->Length, sizeof(uint32_t));
+                var_table_pos += pe_utils::align_up<uint32_t>(var_table->Length, sizeof(uint32_t));
             }
         }
         else
@@ -245,7 +245,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         }
 
         //Navigate to next element in root block
-        child_pos += pe_utils::align_up(block->Length, sizeof(uint32_t));
+        child_pos += pe_utils::align_up<uint32_t>(block->Length, sizeof(uint32_t));
     }
 
     return ret;
-- 
2.43.0


From 4ec11ffd73d51d7d8dceb86afd35d71d1a4a3fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:02 +0000
Subject: [PATCH 36/36] fix: adding an icon or cursor file with 65535 images no
 longer loops forever

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index faae7bd..dbdf1ff 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -159,8 +159,8 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
     }
     catch(const pe_exception&) //Entry not found
     {
-        for(uint16_t i = 1; i != count + 1; ++i)
-            icon_cursor_id_list.push_back(i);
+        for(uint32_t i = 0; i != count; ++i)
+            icon_cursor_id_list.push_back(static_cast<uint16_t>(i + 1));
     }
 
     return icon_cursor_id_list;
-- 
2.43.0

