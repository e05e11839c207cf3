From d2ace14de6d7206c96ef497094603d646a06d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 01/17] fix: avoid signed overflow when decoding a NEAR address
 from malformed input

---
 src/addrcache.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index d309e58..24c6af7 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -121,7 +121,12 @@ class VCDiffAddressCache {
 
   VCDAddress DecodeNearAddress(unsigned char mode,
                                int32_t encoded_address) const {
-    return NearAddress(mode - FirstNearMode()) + encoded_address;
+    // Both values may be as large as INT32_MAX.  Add them as unsigned integers,
+    // because signed overflow is undefined; a sum that exceeds INT32_MAX becomes
+    // a negative address, which IsDecodedAddressValid() will reject.
+    return static_cast<VCDAddress>(
+        static_cast<uint32_t>(NearAddress(mode - FirstNearMode())) +
+        static_cast<uint32_t>(encoded_address));
   }
 
   VCDAddress DecodeSameAddress(unsigned char mode,
-- 
2.43.0


From 451da8c3ac0b43793fde48c20994c35e65de8bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 02/17] fix: FirstSameMode() wrapped to 0 with a near cache of
 size 254

---
 src/addrcache.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index 24c6af7..0c2a375 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -75,7 +75,10 @@ class VCDiffAddressCache {
   // 8 bits of the address are used to find the element of this block that
   // may match the desired address value.
   //
-  unsigned char FirstSameMode() const {
+  // If near_cache_size is 254, there are no SAME modes and the value returned
+  // (256) does not fit in an unsigned char.
+  //
+  int FirstSameMode() const {
     return VCD_FIRST_NEAR_MODE + near_cache_size();
   }
 
-- 
2.43.0


From 75c3df96b58ce0e05053f41f42538d4d26467dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 03/17] fix: report an error if the custom code table is
 invalid, instead of ignoring it

---
 src/vcdecoder.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6cba7f7..5576da3 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -779,6 +779,15 @@ int VCDiffStreamingDecoderImpl::InitCustomCodeTable(const char* data_start,
                << VCD_ENDL;
     return RESULT_ERROR;
   }
+  // See VCDiffAddressCache::Init().  The limit must be checked before the custom
+  // code table is validated, so that LastMode() does not exceed UCHAR_MAX.
+  if (near_cache_size + same_cache_size > VCD_MAX_MODES - 2) {
+    VCD_DFATAL << "Using near cache size " << near_cache_size
+               << " and same cache size " << same_cache_size
+               << " would exceed maximum number of COPY modes ("
+               << VCD_MAX_MODES << ")" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
 
   custom_code_table_.reset(new struct VCDiffCodeTableData);
   memset(custom_code_table_.get(), 0, sizeof(struct VCDiffCodeTableData));
@@ -843,7 +852,11 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadCustomCodeTable(
   // Skip over the consumed data.
   data->FinishExcept(custom_code_table_decoder_->GetUnconsumedDataSize());
   custom_code_table_decoder_.reset();
-  delta_window_.UseCodeTable(*custom_code_table_, addr_cache_->LastMode());
+  if (!delta_window_.UseCodeTable(*custom_code_table_,
+                                  addr_cache_->LastMode())) {
+    VCD_ERROR << "Custom code table is not valid" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
   return RESULT_SUCCESS;
 }
 
-- 
2.43.0


From eb3aece83e73cb9fb343608615896049819da122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 04/17] fix: do not use the custom code table of one delta file
 to decode the next one

---
 src/decodetable.cc | 5 +++++
 src/decodetable.h  | 5 +++++
 src/vcdecoder.cc   | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/src/decodetable.cc b/src/decodetable.cc
index 486c6ed..e2572c6 100644
--- a/src/decodetable.cc
+++ b/src/decodetable.cc
@@ -44,6 +44,11 @@ bool VCDiffCodeTableReader::UseCodeTable(
   return true;
 }
 
+void VCDiffCodeTableReader::UseDefaultCodeTable() {
+  code_table_data_ = &VCDiffCodeTableData::kDefaultCodeTableData;
+  non_default_code_table_data_.reset();
+}
+
 VCDiffInstructionType VCDiffCodeTableReader::GetNextInstruction(
     int32_t* size,
     unsigned char* mode) {
diff --git a/src/decodetable.h b/src/decodetable.h
index 2bcad09..e2cafdb 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -51,6 +51,11 @@ class VCDiffCodeTableReader {
   bool UseCodeTable(const VCDiffCodeTableData& code_table_data,
                     unsigned char max_mode);
 
+  // Discards any non-standard code table set up by UseCodeTable(), and goes
+  // back to using the default code table.
+  //
+  void UseDefaultCodeTable();
+
   // Defines the buffer containing the instructions and sizes.
   // This method must be called before GetNextInstruction() may be used.
   // Init() may be called any number of times to reset the state of
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 5576da3..c42cc43 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -118,6 +118,8 @@ class VCDiffDeltaFileWindow {
     return reader_.UseCodeTable(code_table_data, max_mode);
   }
 
+  void UseDefaultCodeTable() { reader_.UseDefaultCodeTable(); }
+
   // Decodes a single delta window using the input data from *parseable_chunk.
   // Appends the decoded target window to parent_->decoded_target().  Returns
   // RESULT_SUCCESS if an entire window was decoded, or RESULT_END_OF_DATA if
@@ -645,6 +647,8 @@ void VCDiffStreamingDecoderImpl::Reset() {
   custom_code_table_.reset();
   custom_code_table_decoder_.reset();
   delta_window_.Reset();
+  // A custom code table applies only to the delta file that specified it.
+  delta_window_.UseDefaultCodeTable();
   decoded_target_output_position_ = 0;
 }
 
-- 
2.43.0


From 1d2cbb2966bf988dddfea84c1d03912d4a9ff4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 05/17] fix: reject nested custom code tables, which caused
 unbounded recursion

---
 src/vcdecoder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index c42cc43..050c011 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -741,6 +741,14 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadDeltaFileHeader(
     return RESULT_ERROR;
   }
   if (header->hdr_indicator & VCD_CODETABLE) {
+    if (HasPlannedTargetFileSize()) {
+      // This decoder is itself decoding an embedded custom code table, which
+      // must use the default code table.  Without this check, the depth of
+      // recursion would be limited only by the size of the input.
+      VCD_ERROR << "The encoding of a custom code table must not specify"
+                   " another custom code table" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
     int bytes_parsed = InitCustomCodeTable(
         data->UnparsedData() + sizeof(DeltaFileHeader),
         data->End());
-- 
2.43.0


From 3307aac04ca6fa3c431de78877a28037ddd3a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 06/17] fix: report an excess second instruction left over at
 the end of a window

---
 src/decodetable.h | 7 +++++++
 src/vcdecoder.cc  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decodetable.h b/src/decodetable.h
index e2cafdb..b64defe 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -103,6 +103,13 @@ class VCDiffCodeTableReader {
   //
   VCDiffInstructionType GetNextInstruction(int32_t* size, unsigned char* mode);
 
+  // Returns true if the second instruction of the last opcode read has not yet
+  // been returned by GetNextInstruction().
+  //
+  bool HasPendingInstruction() const {
+    return pending_second_instruction_ != kNoOpcode;
+  }
+
   // Puts a single instruction back onto the front of the
   // instruction stream.  The next call to GetNextInstruction()
   // will return the same value that was returned by the last
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 050c011..41451f9 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1333,7 +1333,7 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
                  "that the wrong dictionary was used" << VCD_ENDL;
     return RESULT_ERROR;
   }
-  if (!instructions_and_sizes_.Empty()) {
+  if (!instructions_and_sizes_.Empty() || reader_.HasPendingInstruction()) {
     VCD_ERROR << "Excess instructions and sizes left over "
                  "after decoding target window" << VCD_ENDL;
       return RESULT_ERROR;
-- 
2.43.0


From 9e73c724447c3e3672a0a4417001ab27a6dec5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 07/17] fix: detect excess interleaved data that has not been
 received yet

---
 src/vcdecoder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 41451f9..0ddfc9c 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1357,6 +1357,13 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
   } else {
     // Interleaved format is being used.
     UpdateInstructionPointer(parseable_chunk);
+    if (MoreDataExpected()) {
+      // The rest of the interleaved section has not been received yet, but
+      // there is no target data left for it to describe.
+      VCD_ERROR << "Excess instructions and sizes left over "
+                   "after decoding target window" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
   }
   return RESULT_SUCCESS;
 }
-- 
2.43.0


From 8587ea39fe4964bd48243b52bc90a77ef254e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 08/17] fix: a COPY beyond address INT32_MAX must not terminate
 a debug build

---
 src/vcdecoder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 0ddfc9c..282020e 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -32,6 +32,7 @@
 #include <stddef.h>  // size_t, ptrdiff_t
 #include <stdint.h>  // int32_t
 #include <string.h>  // memcpy, memset
+#include <limits>
 #include <string>
 #include "addrcache.h"
 #include "checksum.h"
@@ -1202,6 +1203,13 @@ VCDiffResult VCDiffDeltaFileWindow::DecodeCopy(size_t size,
   // Keep track of the number of target bytes decoded as a local variable
   // to avoid recalculating it each time it is needed.
   size_t target_bytes_decoded = TargetBytesDecoded();
+  if (source_segment_length_ + target_bytes_decoded >
+      static_cast<size_t>(std::numeric_limits<VCDAddress>::max())) {
+    VCD_ERROR << "Source segment length " << source_segment_length_
+              << " plus target position " << target_bytes_decoded
+              << " is too large for a COPY address" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
   const VCDAddress here_address =
       static_cast<VCDAddress>(source_segment_length_ + target_bytes_decoded);
   const VCDAddress decoded_address = parent_->addr_cache()->DecodeAddress(
-- 
2.43.0


From 2f1a9aed409347e80bec32ea5c1c6701d7d6c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:29 +0000
Subject: [PATCH 09/17] fix: enforce a maximum target file size that was
 lowered while decoding

---
 src/vcdecoder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 282020e..f1c24fb 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -996,8 +996,11 @@ bool VCDiffStreamingDecoderImpl::TargetWindowWouldExceedSizeLimits(
       return true;
     }
   }
+  // The maximum may have been lowered below the size of the windows decoded so
+  // far by a call to SetMaximumTargetFileSize().
   size_t remaining_maximum_target_bytes =
-      maximum_target_file_size_ - total_of_target_window_sizes_;
+      (maximum_target_file_size_ > total_of_target_window_sizes_) ?
+      (maximum_target_file_size_ - total_of_target_window_sizes_) : 0;
   if (window_size > remaining_maximum_target_bytes) {
     VCD_ERROR << "Length of target window (" << window_size
               << " bytes) plus previous windows ("
-- 
2.43.0


From adf4ee4933c93c274759807cde9ec8cdc4c3cc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:54 +0000
Subject: [PATCH 10/17] fix: reset all JSON writer state in Init(), so that an
 encoder can be reused for an empty target

---
 src/jsonwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index d4f2f33..be76d7d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -29,6 +29,7 @@ JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
 bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
   output_ = "[";
+  output_called_ = false;
   opcode_added_ = false;
   return true;
 }
-- 
2.43.0


From 995df25906bec68f5ee7a4f5a62c39aafe180673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:54 +0000
Subject: [PATCH 11/17] fix: escape the data of a RUN in JSON output

---
 src/jsonwriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index be76d7d..df15665 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -100,7 +100,7 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
     output_.push_back(',');
   }
   output_.push_back('\"');
-  output_.append(string(size, byte).data(), size);
+  JSONEscape(string(size, byte).data(), size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
 }
-- 
2.43.0


From ffb62175985ca3b294e44cce127b1843aec8abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:54 +0000
Subject: [PATCH 12/17] fix: JSON offsets into the target data were wrong after
 the first chunk

---
 src/google/jsonwriter.h | 17 +++++++++++++++--
 src/jsonwriter.cc       | 21 ++++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/google/jsonwriter.h b/src/google/jsonwriter.h
index 54a2019..8e673c1 100644
--- a/src/google/jsonwriter.h
+++ b/src/google/jsonwriter.h
@@ -33,7 +33,8 @@ namespace open_vcdiff {
 // * Each ADD is represented by a single JSON string containing
 //   the data to add.
 // * Each COPY is represented by two numbers. The first is an offset into
-//   the dictionary.  The second is a length.
+//   the dictionary followed by the target data preceding the COPY.  The second
+//   is a length.
 // * Each RUN is represented by a JSON string containing the data to add,
 //   similar to the ADD command.
 //
@@ -48,7 +49,8 @@ class JSONCodeTableWriter : public CodeTableWriterInterface {
   // Encode an ADD opcode with the "size" bytes starting at data
   virtual void Add(const char* data, size_t size);
 
-  // Encode a COPY opcode with args "offset" (into dictionary) and "size" bytes.
+  // Encode a COPY opcode with args "offset" (into the dictionary followed by the
+  // target data of the current delta window) and "size" bytes.
   virtual void Copy(int32_t offset, size_t size);
 
   // Encode a RUN opcode for "size" copies of the value "byte".
@@ -91,6 +93,17 @@ class JSONCodeTableWriter : public CodeTableWriterInterface {
 
   // Set if an opcode has been added.
   bool opcode_added_;
+
+  // The size of the dictionary that was passed to Init().
+  size_t dictionary_size_;
+
+  // The size of the target data added since Init().
+  size_t target_size_;
+
+  // The size of the target data in the delta windows that were output since
+  // Init().  There are no delta windows in the JSON format, so this must be
+  // added to any offset that refers to the target data.
+  size_t previous_windows_size_;
 };
 
 }  // namespace open_vcdiff
diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index df15665..c689125 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -24,13 +24,20 @@
 namespace open_vcdiff {
 
 JSONCodeTableWriter::JSONCodeTableWriter()
-  : output_called_(false), opcode_added_(false) {}
+  : output_called_(false),
+    opcode_added_(false),
+    dictionary_size_(0),
+    target_size_(0),
+    previous_windows_size_(0) {}
 JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
-bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
+bool JSONCodeTableWriter::Init(size_t dictionary_size) {
   output_ = "[";
   output_called_ = false;
   opcode_added_ = false;
+  dictionary_size_ = dictionary_size;
+  target_size_ = 0;
+  previous_windows_size_ = 0;
   return true;
 }
 
@@ -38,6 +45,7 @@ void JSONCodeTableWriter::Output(OutputStringInterface* out) {
   output_called_ = true;
   out->append(output_.data(), output_.size());
   output_ = "";
+  previous_windows_size_ = target_size_;
 }
 
 void JSONCodeTableWriter::FinishEncoding(OutputStringInterface* out) {
@@ -81,6 +89,7 @@ void JSONCodeTableWriter::Add(const char* data, size_t size) {
   JSONEscape(data, size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
@@ -88,10 +97,15 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
   if (opcode_added_) {
     output_.push_back(',');
   }
+  size_t source_offset = static_cast<size_t>(offset);
+  if (source_offset >= dictionary_size_) {
+    source_offset += previous_windows_size_;
+  }
   std::ostringstream copy_code;
-  copy_code << offset << "," << size;
+  copy_code << source_offset << "," << size;
   output_.append(copy_code.str());
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
@@ -103,6 +117,7 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
   JSONEscape(string(size, byte).data(), size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::WriteHeader(OutputStringInterface *,
-- 
2.43.0


From 35a01446dd8be3986cebdc20ad5841a75ed5caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:49 +0000
Subject: [PATCH 13/17] fix: write the size of an instruction of size 0

A size of 0 in the code table means that the size follows the opcode.  Both
lookups of a fixed-size opcode found that opcode for an instruction of size 0,
and no size was written: the decoder took the next byte for the size.
---
 src/encodetable.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index ce017de..9f1a1eb 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -188,7 +188,7 @@ void VCDiffCodeTableWriter::EncodeInstruction(VCDiffInstructionType inst,
                      " in a row" << VCD_ENDL;
     }
     OpcodeOrNone compound_opcode = kNoOpcode;
-    if (size <= UCHAR_MAX) {
+    if ((size > 0) && (size <= UCHAR_MAX)) {
       compound_opcode = instruction_map_->LookupSecondOpcode(
           last_opcode, static_cast<unsigned char>(inst),
           static_cast<unsigned char>(size), mode);
@@ -211,7 +211,7 @@ void VCDiffCodeTableWriter::EncodeInstruction(VCDiffInstructionType inst,
     }
   }
   OpcodeOrNone opcode = kNoOpcode;
-  if (size <= UCHAR_MAX) {
+  if ((size > 0) && (size <= UCHAR_MAX)) {
     opcode = instruction_map_->LookupFirstOpcode(
         static_cast<unsigned char>(inst), static_cast<unsigned char>(size),
         mode);
-- 
2.43.0


From ef2f453a67bd4f5409f14ce4c3036eaf7f2d98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:01 +0000
Subject: [PATCH 14/17] fix: heap overflow for a code table with a NOOP first
 instruction

The size arrays of the first instruction map also receive size2 of the opcodes
whose first instruction is NOOP, but were only sized by the maximum of size1.
---
 src/instruction_map.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 326698c..7767eba 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -15,6 +15,7 @@
 #include <config.h>
 #include "instruction_map.h"
 #include <string.h>  // memset
+#include <algorithm>  // max
 #include "addrcache.h"
 #include "vcdiff_defs.h"
 
@@ -151,7 +152,9 @@ VCDiffInstructionMap::VCDiffInstructionMap(
     const VCDiffCodeTableData& code_table_data,
     unsigned char max_mode)
     : first_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
-                             FindMaxSize(code_table_data.size1)),
+                             // size2 is also used, if inst1 is VCD_NOOP
+                             std::max(FindMaxSize(code_table_data.size1),
+                                      FindMaxSize(code_table_data.size2))),
       second_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
                               FindMaxSize(code_table_data.size2)) {
   // First pass to fill up first_instruction_map_
-- 
2.43.0


From 24c8f00ddbad241e2671e12da037f6235ef57f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:33 +0000
Subject: [PATCH 15/17] fix: data race in GetDefaultInstructionMap() when
 encoders start in several threads

---
 src/instruction_map.cc | 12 +++++-------
 src/instruction_map.h  |  2 --
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 7767eba..9237648 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -23,14 +23,12 @@ namespace open_vcdiff {
 
 // VCDiffInstructionMap members and methods
 
-VCDiffInstructionMap* VCDiffInstructionMap::default_instruction_map = NULL;
-
 VCDiffInstructionMap* VCDiffInstructionMap::GetDefaultInstructionMap() {
-  if (!default_instruction_map) {
-    default_instruction_map = new VCDiffInstructionMap(
-        VCDiffCodeTableData::kDefaultCodeTableData,
-        VCDiffAddressCache::DefaultLastMode());
-  }
+  // Encoders in several threads may get here at the same time.  The
+  // initialization of a local static object is thread-safe.
+  static VCDiffInstructionMap* const default_instruction_map =
+      new VCDiffInstructionMap(VCDiffCodeTableData::kDefaultCodeTableData,
+                               VCDiffAddressCache::DefaultLastMode());
   return default_instruction_map;
 }
 
diff --git a/src/instruction_map.h b/src/instruction_map.h
index 489071e..ad8e9fc 100644
--- a/src/instruction_map.h
+++ b/src/instruction_map.h
@@ -195,8 +195,6 @@ class VCDiffInstructionMap {
     void operator=(const SecondInstructionMap&);
   } second_instruction_map_;
 
-  static VCDiffInstructionMap* default_instruction_map;
-
   // Making these private avoids implicit copy constructor & assignment operator
   VCDiffInstructionMap(const VCDiffInstructionMap&);  // NOLINT
   void operator=(const VCDiffInstructionMap&);
-- 
2.43.0


From 38b8a1718c725859c8a3e70fc99ff4dded6a5ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:29 +0000
Subject: [PATCH 16/17] fix: vcdiff hangs if the input file is empty

---
 src/vcdiff_main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 41d1c17..a7bdfcb 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -278,8 +278,9 @@ bool VCDiffFileBasedCoder::OpenFileForReading(const string& file_name,
     }
     buffer_size = static_cast<size_t>(FLAGS_buffersize);
     if (file_size < buffer_size) {
-      // Allocate just enough memory to store the entire file
-      buffer_size = file_size;
+      // Allocate just enough memory to store the entire file, but at least one
+      // byte: reading zero bytes at a time would never reach the end of file.
+      buffer_size = (file_size > 0) ? file_size : 1;
     }
   }
   buffer->resize(buffer_size);
-- 
2.43.0


From 438bc979efe831c501aa9a9bdf581641204d3d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:40 +0000
Subject: [PATCH 17/17] fix: vcdiff reported success when the output could not
 be written

---
 src/vcdiff_main.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index a7bdfcb..26d4e86 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -144,6 +144,10 @@ class VCDiffFileBasedCoder {
   // true.  If an error occurs, writes an error log message and returns false.
   bool WriteOutput(const string& output);
 
+  // Writes all buffered output to output_file_, and closes it unless it is
+  // stdout.  If an error occurs, writes an error log message and returns false.
+  bool FinishOutput();
+
   // Reads a number of bytes from output_file_ equal to the size of output,
   // and compares to make sure they match the contents of output.  If the bytes
   // do not match, or if end of file is reached before the expected number of
@@ -337,6 +341,19 @@ bool VCDiffFileBasedCoder::WriteOutput(const string& output) {
   return true;
 }
 
+bool VCDiffFileBasedCoder::FinishOutput() {
+  // A write error may be found only when the buffered output is flushed.
+  FILE* const file = output_file_;
+  output_file_ = NULL;
+  if (((file == stdout) ? fflush(file) : fclose(file)) != 0) {
+    std::cerr << "Error writing to " << output_file_type_ << " file '"
+              << output_file_name_
+              << "': " << strerror(errno) << std::endl;
+    return false;
+  }
+  return true;
+}
+
 bool VCDiffFileBasedCoder::CompareOutput(const string& output) {
   if (!output.empty()) {
     size_t output_size = output.size();
@@ -434,7 +451,7 @@ bool VCDiffFileBasedCoder::Encode() {
     }
   } while (!feof(input_file_));
   encoder.FinishEncoding(&output);
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FinishOutput()) {
     return false;
   }
   output_size += output.size();
@@ -498,7 +515,7 @@ bool VCDiffFileBasedCoder::Decode() {
               << " may not be a valid VCDIFF delta file" << std::endl;
     return false;
   }
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FinishOutput()) {
     return false;
   }
   output_size += output.size();
-- 
2.43.0

