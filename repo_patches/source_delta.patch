From 222e9e0dad5c564f4ffc4a6d0bd24fcc41f584f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 01/89] fix: reject oversized V5 run lengths without 64-bit
 wraparound

out_index + run_len wraps for a crafted run length close to 2^64, so the check
passed and the run was written far outside the output buffer.
---
 cloudini_lib/src/v5_codec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 9f41f3a..83e2327 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -833,7 +833,7 @@ void decodeV5AdaptiveIntSection(
         const uint64_t value = readRawBits(input.data(), field.bytes_per_value);
         input.trim_front(field.bytes_per_value);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
@@ -856,7 +856,7 @@ void decodeV5AdaptiveIntSection(
         const auto consumed = decodeVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
         const uint64_t run_len = readUVarint(input);
-        if (out_index + run_len > expected_points) {
+        if (run_len > expected_points - out_index) {
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-- 
2.43.0


From 596a0f35618d965ccfee38f4e6bb74ac2d05a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 02/89] fix: honour kDecodeButSkipStore in V5 adaptive integer
 sections

The skip marker was used as a real offset, writing 4 GiB past the point.
---
 cloudini_lib/src/v5_codec.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 83e2327..7a7aea5 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -119,8 +119,10 @@ uint64_t readRawBits(const uint8_t* ptr, size_t bytes) {
   return out;
 }
 
-void writeRawBitsToPoint(uint64_t value, size_t bytes, uint8_t* dst) {
-  std::memcpy(dst, &value, bytes);
+void writeRawBitsToPoint(uint64_t value, const V5AdaptiveIntField& field, uint8_t* point) {
+  if (field.offset != kDecodeButSkipStore) {
+    std::memcpy(point + field.offset, &value, field.bytes_per_value);
+  }
 }
 
 void appendByte(BufferView& out, uint8_t value) {
@@ -784,9 +786,7 @@ void decodeV5AdaptiveIntSection(
         input.trim_front(consumed);
         const int64_t value = prev + diff;
         prev = value;
-        writeRawBitsToPoint(
-            static_cast<uint64_t>(value), field.bytes_per_value,
-            output_base + i * point_step + field.offset);
+        writeRawBitsToPoint(static_cast<uint64_t>(value), field, output_base + i * point_step);
       }
     } break;
 
@@ -817,7 +817,7 @@ void decodeV5AdaptiveIntSection(
         if (idx >= palette.size()) {
           throw std::runtime_error("V5 adaptive int: palette index out of range");
         }
-        writeRawBitsToPoint(palette[idx], field.bytes_per_value, output_base + i * point_step + field.offset);
+        writeRawBitsToPoint(palette[idx], field, output_base + i * point_step);
       }
       input.trim_front(index_bytes);
     } break;
@@ -837,7 +837,7 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          writeRawBitsToPoint(value, field.bytes_per_value, output_base + out_index * point_step + field.offset);
+          writeRawBitsToPoint(value, field, output_base + out_index * point_step);
           ++out_index;
         }
       }
@@ -862,9 +862,7 @@ void decodeV5AdaptiveIntSection(
         for (uint64_t k = 0; k < run_len; ++k) {
           const int64_t value = prev + diff;
           prev = value;
-          writeRawBitsToPoint(
-              static_cast<uint64_t>(value), field.bytes_per_value,
-              output_base + out_index * point_step + field.offset);
+          writeRawBitsToPoint(static_cast<uint64_t>(value), field, output_base + out_index * point_step);
           ++out_index;
         }
       }
-- 
2.43.0


From 4bf2f53dbd1ded50ec71b35bf23a392411e8e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 03/89] fix: reject fields that do not fit inside a point

A field with offset + size > point_step was read (encoder) or written (decoder)
outside the point, and past the end of the buffer for the last one.
---
 cloudini_lib/src/cloudini.cpp     |  7 +++++++
 cloudini_lib/src/codec_common.cpp | 11 +++++++++++
 cloudini_lib/src/codec_common.hpp |  3 +++
 3 files changed, 21 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index e8301fb..eecef6a 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -527,6 +527,9 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
     throw std::runtime_error("Input cloud_data size is not a multiple of point_step");
   }
   const size_t points_count = cloud_data.size() / info_.point_step;
+  if (points_count > 0) {
+    detail::ValidateFieldLayout(info_, /*allow_skip_store=*/false);
+  }
   // Use header_.size() directly to avoid redundant YAML serialization inside MaxCompressedSize
   const size_t required_capacity = MaxCompressedSize(info_, points_count, false) + (write_header ? header_.size() : 0);
   if (output.size() < required_capacity) {
@@ -642,6 +645,10 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
     throw std::runtime_error("compressed_data contains the header. You should use DecodeHeader first");
   }
 
+  if (!compressed_data.empty()) {
+    detail::ValidateFieldLayout(info, /*allow_skip_store=*/true);
+  }
+
   if (info.version >= 3) {
     size_t points_remaining = static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
     while (!compressed_data.empty()) {
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index f447ac3..e73b7d2 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -66,6 +66,17 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
   return max_point_size;
 }
 
+void ValidateFieldLayout(const EncodingInfo& info, bool allow_skip_store) {
+  for (const auto& field : info.fields) {
+    if (allow_skip_store && field.offset == kDecodeButSkipStore) {
+      continue;
+    }
+    if (static_cast<uint64_t>(field.offset) + static_cast<uint64_t>(SizeOf(field.type)) > info.point_step) {
+      throw std::runtime_error("Field '" + field.name + "' does not fit inside a point (see offset and point_step)");
+    }
+  }
+}
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info) {
   if (info.encoding_opt != EncodingOptions::LOSSY) {
     return 0;
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 104feb0..662323f 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -30,6 +30,9 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
 
+// Throws if a field does not fit inside a point. The kDecodeButSkipStore marker is only meaningful when decoding.
+void ValidateFieldLayout(const EncodingInfo& info, bool allow_skip_store);
+
 size_t LeadingLossyFloatFieldCount(const EncodingInfo& info);
 
 size_t AppendLeadingLossyFloatEncoder(
-- 
2.43.0


From 1af6147ef97a9ad6e1c49eb7839f832374a20973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 04/89] fix: bounds-check raw reads in the field decoders

The per-point minimum only covers the first field of a point (earlier varints may
take more than their minimum) and is not checked at all for V5 chunks, so truncated
data was read past its end.
---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index c690275..24f60ba 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -60,7 +60,9 @@ class FieldDecoderCopy : public FieldDecoder {
   }
 
   void decode(ConstBufferView& input, BufferView dest_point_view) override {
-    // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+    if (input.size() < field_size_) {
+      throw std::runtime_error("FieldDecoderCopy: truncated input");
+    }
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, input.data(), field_size_);
     }
@@ -329,7 +331,9 @@ class FieldDecoderFloatN_Lossy : public FieldDecoder {
 //------------------------------------------------------------------------------------------
 template <typename FloatType>
 inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point min_encoded_point_bytes_ check
+  if (input.empty()) {
+    throw std::runtime_error("FieldDecoder(Float/Lossy): truncated input");
+  }
   if (input.data()[0] == 0) {
     constexpr auto nan_value = std::numeric_limits<FloatType>::quiet_NaN();
     if (offset_ != kDecodeButSkipStore) {
@@ -354,7 +358,9 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
 template <typename FloatType>
 inline void FieldDecoderFloat_XOR<FloatType>::decode(ConstBufferView& input, BufferView dest_point_view) {
-  // Bounds validated by PointcloudDecoder's per-point check + trim_front's own check
+  if (input.size() < sizeof(IntType)) {
+    throw std::runtime_error("FieldDecoder(Float/XOR): truncated input");
+  }
   IntType residual = 0;
   memcpy(&residual, input.data(), sizeof(IntType));
   input.trim_front(sizeof(IntType));
-- 
2.43.0


From 747fe4f567b538ec86658f681c5485b7fef9f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 05/89] fix: make MaxCompressedSize a true upper bound for V5
 streams

The adaptive mode is committed on the first 4096 points. When Delta-RLE wins there
and later 64-bit values are random, each costs 11 bytes while the bound assumed 10,
so encoding a valid cloud failed.
---
 cloudini_lib/src/cloudini.cpp     |  9 +--------
 cloudini_lib/src/codec_common.cpp | 12 ++++++++++++
 cloudini_lib/src/codec_common.hpp |  2 ++
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index eecef6a..fb98a3a 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -254,20 +254,13 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
   constexpr size_t chunk_points = detail::kPointsPerChunk;
   const size_t chunks_count = (points_count / chunk_points) + ((points_count % chunk_points) ? 1 : 0);
 
-  const size_t max_serialized_point_size = detail::MaxSerializedPointSize(info);
   size_t total_size = include_header ? (kMagicHeaderLength + 2 + 1 + EncodingInfoToYAML(info).size() + 1) : 0;
 
   size_t points_left = points_count;
   for (size_t chunk_idx = 0; chunk_idx < chunks_count; ++chunk_idx) {
     const size_t points_in_chunk = std::min(points_left, chunk_points);
     points_left -= points_in_chunk;
-    size_t max_chunk_input_size = points_in_chunk * max_serialized_point_size;
-    if (detail::UsesV5Codec(info)) {
-      // V5 adaptive integer sections add mode/header bytes. Adaptive sections
-      // compete using their full encoded size, so any selected mode remains
-      // bounded by the delta-varint section plus this fixed slack.
-      max_chunk_input_size += info.fields.size() * 32u + 1024u;
-    }
+    const size_t max_chunk_input_size = detail::MaxStage1ChunkSize(info, points_in_chunk);
 
     total_size += sizeof(uint32_t);  // chunk size prefix
     switch (info.compression_opt) {
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index e73b7d2..d24c2d6 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -22,6 +22,7 @@
 #include <stdexcept>
 
 #include "lz4.h"
+#include "v5_codec.hpp"
 #include "zstd.h"
 
 namespace Cloudini::detail {
@@ -66,6 +67,17 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
   return max_point_size;
 }
 
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_in_chunk) {
+  size_t max_size = points_in_chunk * MaxSerializedPointSize(info);
+  if (UsesV5Codec(info)) {
+    // V5 adaptive integer sections add mode/header bytes. The mode is committed on the
+    // first points only: later values may cost one more byte than the worst-case varint
+    // (e.g. Delta-RLE where every run has length 1).
+    max_size += info.fields.size() * (points_in_chunk + 32u) + 1024u;
+  }
+  return max_size;
+}
+
 void ValidateFieldLayout(const EncodingInfo& info, bool allow_skip_store) {
   for (const auto& field : info.fields) {
     if (allow_skip_store && field.offset == kDecodeButSkipStore) {
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index 662323f..ba14936 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -29,6 +29,8 @@ constexpr size_t kPointsPerChunk = 32 * 1024;
 
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
+// Upper bound of the first stage output for a chunk with this number of points.
+size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_in_chunk);
 
 // Throws if a field does not fit inside a point. The kDecodeButSkipStore marker is only meaningful when decoding.
 void ValidateFieldLayout(const EncodingInfo& info, bool allow_skip_store);
-- 
2.43.0


From 0e54afd5eca5b3acd7237a3de831d805a4616751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 06/89] fix: size the decompression buffer for the worst-case
 first stage

The buffer was limited to width*height*point_step, but the first stage may expand
incompressible data (or add V5 section headers to tiny clouds): valid compressed
clouds could not be decoded.
---
 cloudini_lib/src/cloudini.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index fb98a3a..b62e1b2 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -669,8 +669,11 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
 
 void PointcloudDecoder::decodeChunk(
     const EncodingInfo& info, ConstBufferView chunk_data, BufferView& output_buffer, size_t expected_points) {
-  const size_t max_decompressed_size =
-      static_cast<size_t>(info.width) * static_cast<size_t>(info.height) * info.point_step;
+  // The first stage can be larger than the raw points (e.g. random 64-bit values).
+  const size_t points_in_chunk = (expected_points > 0)
+                                     ? expected_points
+                                     : static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
+  const size_t max_decompressed_size = detail::MaxStage1ChunkSize(info, points_in_chunk);
   ConstBufferView encoded_view = detail::DecompressChunk(
       info.compression_opt, chunk_data, decompressed_buffer_, max_decompressed_size);
 
-- 
2.43.0


From d5bee20ec76d7b80f39fb9aa0e6e0a60ed7ce1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 07/89] fix: do not loop forever on legacy streams without
 encoded fields

---
 cloudini_lib/src/v4_codec.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/v4_codec.cpp b/cloudini_lib/src/v4_codec.cpp
index 726e6e1..b74bc2f 100644
--- a/cloudini_lib/src/v4_codec.cpp
+++ b/cloudini_lib/src/v4_codec.cpp
@@ -111,7 +111,11 @@ void DecodeV4Stage1Chunk(
       if (encoded_view.size() < min_encoded_point_bytes) {
         throw std::runtime_error("Truncated encoded data: not enough bytes for a complete point");
       }
+      const size_t bytes_before = encoded_view.size();
       decode_point();
+      if (encoded_view.size() == bytes_before) {
+        throw std::runtime_error("Encoded data can not be decoded: points have no encoded fields");
+      }
     }
   }
 }
-- 
2.43.0


From 520a07660d92d0d565db3ef69efcc0f0dba13404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 08/89] fix: reject invalid bit windows in the Gorilla decoder

Corrupted data could lead to shifts by more than 63 bits (undefined behavior).
---
 cloudini_lib/include/cloudini_lib/field_decoder.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index 24f60ba..f4bd582 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -273,6 +273,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
       IntType xor_val;
       if (control == 0) {
         // Reuse previous window.
+        if (prev_leading_ == kLeadingSentinel) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: window reused before being defined");
+        }
         const uint8_t meaningful = static_cast<uint8_t>(kTypeBits - prev_leading_ - prev_trailing_);
         const uint64_t bits = getBits(meaningful, input);
         xor_val = static_cast<IntType>(bits << prev_trailing_);
@@ -280,6 +283,9 @@ inline void FieldDecoderFloat_Gorilla<FloatType>::decode(ConstBufferView& input,
         // New window: read leading(5), meaningful-1(6), meaningful bits.
         const uint8_t stored_leading = static_cast<uint8_t>(getBits(5, input));
         const uint8_t meaningful = static_cast<uint8_t>(getBits(6, input) + 1);
+        if (stored_leading + meaningful > kTypeBits) {
+          throw std::runtime_error("FieldDecoderFloat_Gorilla: invalid window");
+        }
         const uint64_t bits = getBits(meaningful, input);
         const uint8_t trailing = static_cast<uint8_t>(kTypeBits - stored_leading - meaningful);
         xor_val = static_cast<IntType>(bits << trailing);
-- 
2.43.0


From 2dd1fcc8a1396756b989134ba5bee24d0a6ad50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 09/89] fix: avoid signed overflow in delta encoding

Differences of extreme INT64/UINT64 values and of quantized floats are meant to wrap;
signed overflow is undefined behavior.
---
 .../include/cloudini_lib/encoding_utils.hpp    |  9 +++++++++
 .../include/cloudini_lib/field_decoder.hpp     |  4 ++--
 .../include/cloudini_lib/field_encoder.hpp     |  4 ++--
 cloudini_lib/src/field_decoder.cpp             |  2 +-
 cloudini_lib/src/v5_codec.cpp                  | 18 +++++++++---------
 5 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 0eb976c..53ade08 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -52,6 +52,15 @@ inline void encode(const std::string& str, BufferView& buff) {
   buff.trim_front(len);
 }
 
+// Differences between consecutive values wrap around (two's complement) instead of overflowing
+inline int64_t wrappingSub(int64_t a, int64_t b) {
+  return static_cast<int64_t>(static_cast<uint64_t>(a) - static_cast<uint64_t>(b));
+}
+
+inline int64_t wrappingAdd(int64_t a, int64_t b) {
+  return static_cast<int64_t>(static_cast<uint64_t>(a) + static_cast<uint64_t>(b));
+}
+
 inline size_t encodeVarint64(int64_t value, uint8_t* ptr) {
   uint64_t val = static_cast<uint64_t>((value << 1) ^ (value >> 63));  // Zig-zag encoding
   val++;                                                               // reserving value 0 for NaN
diff --git a/cloudini_lib/include/cloudini_lib/field_decoder.hpp b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
index f4bd582..a704091 100644
--- a/cloudini_lib/include/cloudini_lib/field_decoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_decoder.hpp
@@ -90,7 +90,7 @@ class FieldDecoderInt : public FieldDecoder {
     int64_t diff = 0;
     auto count = decodeVarint(input.data(), input.size(), diff);
 
-    int64_t value = prev_value_ + diff;
+    int64_t value = wrappingAdd(prev_value_, diff);
     prev_value_ = value;
     if (offset_ != kDecodeButSkipStore) {
       memcpy(dest_point_view.data() + offset_, &value, sizeof(IntType));
@@ -352,7 +352,7 @@ inline void FieldDecoderFloat_Lossy<FloatType>::decode(ConstBufferView& input, B
 
   int64_t diff = 0;
   const auto count = decodeVarint(input.data(), input.size(), diff);
-  const int64_t value = prev_value_ + diff;
+  const int64_t value = wrappingAdd(prev_value_, diff);
   const FloatType value_real = static_cast<FloatType>(value) * multiplier_;
   prev_value_ = value;
 
diff --git a/cloudini_lib/include/cloudini_lib/field_encoder.hpp b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
index c4298f7..92d589d 100644
--- a/cloudini_lib/include/cloudini_lib/field_encoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
@@ -77,7 +77,7 @@ class FieldEncoderInt : public FieldEncoder {
 
   size_t encode(const ConstBufferView& point_view, BufferView& output) override {
     int64_t value = ToInt64<IntType>(point_view.data() + offset_);
-    int64_t diff = value - prev_value_;
+    int64_t diff = wrappingSub(value, prev_value_);
     prev_value_ = value;
     int64_t var_size = encodeVarint64(diff, output.data());
     output.trim_front(var_size);
@@ -349,7 +349,7 @@ inline size_t FieldEncoderFloat_Lossy<FloatType>::encode(const ConstBufferView&
     return 1;
   }
   const int64_t value = static_cast<int64_t>(std::round(value_real * multiplier_));
-  const int64_t delta = value - prev_value_;
+  const int64_t delta = wrappingSub(value, prev_value_);
   prev_value_ = value;
   auto count = encodeVarint64(delta, output.data());
   output.trim_front(count);
diff --git a/cloudini_lib/src/field_decoder.cpp b/cloudini_lib/src/field_decoder.cpp
index b016940..70bdedf 100644
--- a/cloudini_lib/src/field_decoder.cpp
+++ b/cloudini_lib/src/field_decoder.cpp
@@ -65,7 +65,7 @@ void FieldDecoderFloatN_Lossy::decode(ConstBufferView& input, BufferView dest_po
       int64_t diff = 0;
       const auto remaining = static_cast<size_t>((input.data() + input.size()) - ptr_in);
       const auto count = decodeVarint(ptr_in, remaining, diff);
-      new_vect[i] = static_cast<int32_t>(diff) + prev_vect_[i];
+      new_vect[i] = static_cast<int32_t>(wrappingAdd(diff, prev_vect_[i]));
       float_vect[i] = static_cast<float>(new_vect[i]) * multiplier_[i];
       ptr_in += count;
     }
diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index 7a7aea5..eabac2d 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -261,7 +261,7 @@ size_t encodedDeltaVarintSectionSize(const std::vector<int64_t>& values) {
   size_t bytes = 1;  // mode byte
   int64_t prev = 0;
   for (int64_t value : values) {
-    const int64_t diff = value - prev;
+    const int64_t diff = wrappingSub(value, prev);
     prev = value;
     bytes += encodedVarint64Size(diff);
   }
@@ -273,11 +273,11 @@ void forEachDeltaRun(const std::vector<int64_t>& values, Callback callback) {
   int64_t prev = 0;
   size_t i = 0;
   while (i < values.size()) {
-    const int64_t diff = values[i] - prev;
+    const int64_t diff = wrappingSub(values[i], prev);
     prev = values[i];
     size_t j = i + 1;
     while (j < values.size()) {
-      const int64_t next_diff = values[j] - prev;
+      const int64_t next_diff = wrappingSub(values[j], prev);
       if (next_diff != diff) {
         break;
       }
@@ -426,7 +426,7 @@ void appendDeltaVarintSection(const std::vector<int64_t>& values, BufferView& ou
   appendByte(out, static_cast<uint8_t>(AdaptiveIntMode::DeltaVarint));
   int64_t prev = 0;
   for (int64_t value : values) {
-    const int64_t diff = value - prev;
+    const int64_t diff = wrappingSub(value, prev);
     prev = value;
     const size_t bytes = encodeVarint64(diff, out.data());
     out.trim_front(bytes);
@@ -539,7 +539,7 @@ void flushDeltaRleRun(V5AdaptiveIntField& field) {
 }
 
 void appendDeltaRleValue(V5AdaptiveIntField& field, int64_t value) {
-  const int64_t diff = value - field.stream_prev_value;
+  const int64_t diff = wrappingSub(value, field.stream_prev_value);
   field.stream_prev_value = value;
   if (!field.stream_has_run) {
     field.stream_run_diff = diff;
@@ -588,7 +588,7 @@ void appendCommittedValueToSection(V5AdaptiveIntField& field, const uint8_t* fie
   switch (field.committed_mode) {
     case AdaptiveIntMode::DeltaVarint: {
       const int64_t value = readIntAsI64(field_ptr, field.type);
-      const int64_t diff = value - field.stream_prev_value;
+      const int64_t diff = wrappingSub(value, field.stream_prev_value);
       field.stream_prev_value = value;
       appendVarint64(diff, field.section_bytes);
     } break;
@@ -608,7 +608,7 @@ void appendCommittedValueToSection(V5AdaptiveIntField& field, size_t index) {
   switch (field.committed_mode) {
     case AdaptiveIntMode::DeltaVarint: {
       const int64_t value = field.values[index];
-      const int64_t diff = value - field.stream_prev_value;
+      const int64_t diff = wrappingSub(value, field.stream_prev_value);
       field.stream_prev_value = value;
       appendVarint64(diff, field.section_bytes);
     } break;
@@ -784,7 +784,7 @@ void decodeV5AdaptiveIntSection(
         int64_t diff = 0;
         const auto consumed = decodeVarint(input.data(), input.size(), diff);
         input.trim_front(consumed);
-        const int64_t value = prev + diff;
+        const int64_t value = wrappingAdd(prev, diff);
         prev = value;
         writeRawBitsToPoint(static_cast<uint64_t>(value), field, output_base + i * point_step);
       }
@@ -860,7 +860,7 @@ void decodeV5AdaptiveIntSection(
           throw std::runtime_error("V5 adaptive int: Delta-RLE run exceeds point count");
         }
         for (uint64_t k = 0; k < run_len; ++k) {
-          const int64_t value = prev + diff;
+          const int64_t value = wrappingAdd(prev, diff);
           prev = value;
           writeRawBitsToPoint(static_cast<uint64_t>(value), field, output_base + out_index * point_step);
           ++out_index;
-- 
2.43.0


From 65b61f01beff2b22f0c9b520db6b8cf3752c4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 10/89] fix: write the exact resolution in the YAML header

The default stream precision kept 6 digits, so the decoder reconstructed values with
a different resolution than the one used to encode, exceeding the error bound.
---
 cloudini_lib/src/cloudini.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index b62e1b2..fed8ea9 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <charconv>
 #include <cstring>
 #include <limits>
 #include <sstream>
@@ -181,7 +182,10 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
-      yaml << "    resolution: " << field.resolution.value() << "\n";
+      // shortest representation that is parsed back to the same value
+      char buffer[32];
+      const auto res = std::to_chars(buffer, buffer + sizeof(buffer), field.resolution.value());
+      yaml << "    resolution: " << std::string_view(buffer, res.ptr - buffer) << "\n";
     } else {
       yaml << "    resolution: null\n";
     }
-- 
2.43.0


From 8356469e4bbb9a697ae3b567728aaa6d486b9be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 11/89] fix: parse the version in the YAML header as a number

It was read as a character ('5' -> 53), so encoding with a description parsed from YAML
(cldn_EncodePointcloudData) wrote the undecodable magic CLOUDINI_V53.
---
 cloudini_lib/src/cloudini.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index fed8ea9..b6d9eeb 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -200,7 +200,11 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
   auto root = YAML::parse(yaml);
 
   // Read top-level fields
-  info.version = root["version"].as<uint8_t>();
+  const auto version = root["version"].as<uint32_t>();
+  if (version > 99) {
+    throw std::runtime_error("Invalid version in YAML header: " + std::to_string(version));
+  }
+  info.version = static_cast<uint8_t>(version);
   info.width = root["width"].as<uint32_t>();
   info.height = root["height"].as<uint32_t>();
   info.point_step = root["point_step"].as<uint32_t>();
@@ -383,8 +387,7 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
     yaml_str = yaml_str.substr(0, null_pos);
     input.trim_front(null_pos + 1);  // consume header + null terminator
     EncodingInfo yaml_header = EncodingInfoFromYAML(yaml_str);
-    // The magic-header version is authoritative. YAML's parseScalar<uint8_t> reads a
-    // single character (e.g. "3" -> 51), so the YAML-parsed info.version is unreliable.
+    // The magic-header version is authoritative.
     yaml_header.version = version;
     return yaml_header;
   }
-- 
2.43.0


From bf746c33e4812e3124e154427d4a74f8ffa13eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 12/89] fix: do not mistake a binary header for YAML when width
 % 256 == 10

---
 cloudini_lib/src/cloudini.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index b6d9eeb..eb5cc8d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -375,9 +375,10 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
   // Note: version 4 adds Gorilla bit-packing for lossless FLOAT32/FLOAT64 XOR residuals.
   // Versions 2 and 3 keep the raw-XOR path (8 bytes per double, 4 bytes per float).
 
-  // YAML payload starts with newline followed by a non-brace; legacy binary
-  // payload starts with the brace of an inline schema.
-  if (input.size() >= 2 && input.data()[0] == '\n' && input.data()[1] != '{') {
+  // YAML payload starts with a newline followed by the key "version". The newline alone is not
+  // enough: it is also the first byte of a binary header when the lower byte of width is 10.
+  constexpr std::string_view yaml_start = "\nversion:";
+  if (input.size() >= yaml_start.size() && memcmp(input.data(), yaml_start.data(), yaml_start.size()) == 0) {
     input.trim_front(1);  // consume newline
     std::string_view yaml_str(reinterpret_cast<const char*>(input.data()), input.size());
     size_t null_pos = yaml_str.find('\0');
-- 
2.43.0


From 8e6c81deacca8134f5877de7a0d53d5575a9a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 13/89] fix: reject non-numeric versions in the magic header

---
 cloudini_lib/src/cloudini.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index eb5cc8d..0644838 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -17,6 +17,7 @@
 #include "cloudini_lib/cloudini.hpp"
 
 #include <algorithm>
+#include <cctype>
 #include <charconv>
 #include <cstring>
 #include <limits>
@@ -364,6 +365,9 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
   input.trim_front(kMagicHeaderLength);
 
   // next 2 bytes contain the version number as string
+  if (!std::isdigit(input.data()[0]) || !std::isdigit(input.data()[1])) {
+    throw std::runtime_error("Invalid magic header: the version is not a number");
+  }
   const uint8_t version = char_to_num(input.data()[0]) * 10 + char_to_num(input.data()[1]);
   input.trim_front(2);
 
-- 
2.43.0


From 91e40b4fc1be780526d25a52bff2de58752a0e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 14/89] fix: allow LZ4 with output buffers larger than 2 GiB

Only the chunk has to be addressable by LZ4, not the space left in the output.
---
 cloudini_lib/src/codec_common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index d24c2d6..dd12a11 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -248,13 +248,13 @@ uint32_t CompressChunk(CompressionOption compression, ConstBufferView input, Buf
   uint32_t chunk_size = 0;
   switch (compression) {
     case CompressionOption::LZ4: {
-      if (input.size() > static_cast<size_t>(std::numeric_limits<int>::max()) ||
-          output.size() > static_cast<size_t>(std::numeric_limits<int>::max())) {
+      constexpr size_t max_lz4_size = static_cast<size_t>(std::numeric_limits<int>::max());
+      if (input.size() > max_lz4_size) {
         throw std::runtime_error("Chunk size too large for LZ4");
       }
       const int cs = LZ4_compress_default(
           reinterpret_cast<const char*>(input.data()), reinterpret_cast<char*>(output.data()),
-          static_cast<int>(input.size()), static_cast<int>(output.size()));
+          static_cast<int>(input.size()), static_cast<int>(std::min(output.size(), max_lz4_size)));
       if (cs <= 0) {
         throw std::runtime_error("LZ4 compression failed");
       }
-- 
2.43.0


From 4eb7cbc19561146bbadf7cefb196473b593479e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 15/89] fix: validate CDR header size and boolean values

Messages shorter than 4 bytes were read past their end, and a boolean byte other than
0 and 1 produced an invalid bool.
---
 .../include/cloudini_lib/contrib/nanocdr.hpp         | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
index e73b72a..cfb4674 100644
--- a/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
+++ b/cloudini_lib/include/cloudini_lib/contrib/nanocdr.hpp
@@ -249,7 +249,11 @@ inline void swapEndianness(T& val) {
   }
 }
 
-inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(buffer.data() + 4) {
+inline Decoder::Decoder(ConstBuffer buffer, CdrVersion default_cdr) : buffer_(buffer), origin_(nullptr) {
+  if (buffer_.size() < 4) {
+    throw std::runtime_error("Invalid CDR header: not enough data");
+  }
+  origin_ = buffer_.data() + 4;
   const auto* ptr = buffer_.data();
   uint8_t dummy = ptr[0];
   if (dummy != 0) {
@@ -354,7 +358,11 @@ inline void Decoder::decode(T& out) {
     if (buffer_.size() < sizeof(T)) {
       throw std::runtime_error("Decode: not enough data to decode");
     }
-    memcpy(&out, buffer_.data(), sizeof(T));
+    if constexpr (std::is_same_v<T, bool>) {
+      out = (buffer_.data()[0] != 0);  // any other bit pattern is not a valid bool
+    } else {
+      memcpy(&out, buffer_.data(), sizeof(T));
+    }
 
     if constexpr (sizeof(T) >= 2) {
       if (header_.endianness != getCurrentEndianness()) {
-- 
2.43.0


From 7f906fe4f339ece752756bf8e83e66eb94bd9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 16/89] fix: write the compressed size with the byte order of
 the message

---
 cloudini_lib/src/ros_msg_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 2978571..dfe18b8 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -202,7 +202,11 @@ void convertPointCloud2ToCompressedCloud(
   const size_t compressed_size = cloud_encoder.encode(pc_info.data, compressed_data_view, true);
 
   // we can finally write the actual size of the compressed data
-  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size, sizeof(uint32_t));
+  uint32_t compressed_size_field = static_cast<uint32_t>(compressed_size);
+  if (pc_info.cdr_header.endianness != nanocdr::getCurrentEndianness()) {
+    nanocdr::swapEndianness(compressed_size_field);
+  }
+  memcpy(compressed_dds_msg.data() + cloud_size_memory_offset, &compressed_size_field, sizeof(uint32_t));
 
   // Resize the output buffer to the actual size used
   compressed_dds_msg.resize(prev_size + compressed_size);
-- 
2.43.0


From 8b83a0480ec27ed316363d5552ed2e018f408398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 17/89] fix: compute cloud sizes without 32-bit overflow

---
 cloudini_lib/include/cloudini_lib/cloudini.hpp       | 2 +-
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 2 +-
 cloudini_lib/src/pcl_conversion.cpp                  | 2 +-
 cloudini_lib/src/ros_msg_utils.cpp                   | 6 +++++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/cloudini.hpp b/cloudini_lib/include/cloudini_lib/cloudini.hpp
index a2beac8..1ba7f79 100644
--- a/cloudini_lib/include/cloudini_lib/cloudini.hpp
+++ b/cloudini_lib/include/cloudini_lib/cloudini.hpp
@@ -227,7 +227,7 @@ class PointcloudDecoder {
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, BufferView output);
 
   void decode(const EncodingInfo& info, ConstBufferView compressed_data, std::vector<uint8_t>& output) {
-    output.resize(info.width * info.height * info.point_step);
+    output.resize(static_cast<size_t>(info.width) * info.height * info.point_step);
     BufferView output_view(output.data(), output.size());
     decode(info, compressed_data, output_view);
   }
diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index d46e2fd..6d2bada 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -128,7 +128,7 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
   // decode the header
   EncodingInfo header_info = DecodeHeader(serialized_data);
   // resize the cloud to the decoded size
-  cloud.points.resize(header_info.width * header_info.height);
+  cloud.points.resize(static_cast<size_t>(header_info.width) * header_info.height);
   cloud.width = header_info.width;
   cloud.height = header_info.height;
 
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index da61953..64d6fd5 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -252,7 +252,7 @@ void PCLPointCloudDecode(ConstBufferView serialized_data, pcl::PCLPointCloud2& c
   cloud.is_bigendian = false;
 
   // Resize data
-  cloud.data.resize(cloud.width * cloud.height * cloud.point_step);
+  cloud.data.resize(static_cast<size_t>(cloud.width) * cloud.height * cloud.point_step);
 
   // Convert fields
   cloud.fields.clear();
diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index dfe18b8..7a644c0 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -134,7 +134,11 @@ Cloudini::EncodingInfo toEncodingInfo(const RosPointCloud2& pc_info) {
 
 void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vector<uint8_t>& pc2_dds_msg) {
   // We need to reserve enough space in the output buffer
-  const size_t cloud_data_size = pc_info.width * pc_info.height * pc_info.point_step;
+  const size_t points_count = static_cast<size_t>(pc_info.width) * pc_info.height;
+  if (pc_info.point_step != 0 && points_count > std::numeric_limits<uint32_t>::max() / pc_info.point_step) {
+    throw std::runtime_error("convertCompressedCloudToPointCloud2: the decoded cloud is too large for a message");
+  }
+  const size_t cloud_data_size = points_count * pc_info.point_step;
 
   pc2_dds_msg.clear();
   nanocdr::Encoder cdr_encoder(pc_info.cdr_header, pc2_dds_msg);
-- 
2.43.0


From 805f348baf46a16773716c81668e252ed072c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 18/89] fix: refuse to compress messages whose data does not
 match their dimensions

The result declared width*height points but contained another number of them (e.g. when
rows are padded), i.e. it could not be decompressed: the cloud was silently lost.
---
 cloudini_lib/src/ros_msg_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 7a644c0..b596086 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -196,6 +196,10 @@ void convertPointCloud2ToCompressedCloud(
   // Derive point count from actual data size rather than trusting metadata width*height,
   // which could be maliciously large and cause excessive allocation.
   const size_t points_count = pc_info.data.size() / encoding_info.point_step;
+  if (pc_info.data.size() % encoding_info.point_step != 0 ||
+      points_count != static_cast<size_t>(encoding_info.width) * encoding_info.height) {
+    throw std::runtime_error("convertPointCloud2ToCompressedCloud: data size does not match the declared dimensions");
+  }
   const size_t max_compressed_size = Cloudini::MaxCompressedSize(encoding_info, points_count, true);
   // reserve enough memory for the compressed data. we will resize later to the actual size used
   compressed_dds_msg.resize(prev_size + max_compressed_size);
-- 
2.43.0


From 20eb1174c9f36eeac299fb5a6a509b4e58473488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 19/89] fix: ignore coordinates outside the point in
 applyVizLossyPreprocessing

---
 cloudini_lib/src/ros_msg_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index b596086..1843971 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -281,6 +281,9 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
   if (!(xyz_res > 0.0f) || !std::isfinite(xyz_res)) {
     return;
   }
+  if (static_cast<uint64_t>(f2.offset) + sizeof(float) > pc_info.point_step) {
+    return;
+  }
   const float inv_res = 1.0f / xyz_res;
   const uint32_t xyz_off[3] = {f0.offset, f1.offset, f2.offset};
 
-- 
2.43.0


From 28b4ecf65c27f9ed755896f283200215dce0b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 20/89] fix: report malformed messages in
 cldn_DecodeCompressedMessage by returning 0

---
 cloudini_lib/src/wasm_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 78079b3..0beae6f 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -122,10 +122,10 @@ uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
 uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encoded_dds_size, uintptr_t output_data) {
   const uint8_t* dds_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
 
-  Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
-  const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
-
   try {
+    Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
+    const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From 7635884bbef7dff186a3bb417e6541c5774499ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 21/89] fix: refuse point_step 0 in
 cldn_EncodePointcloudMessage instead of dividing by it

---
 cloudini_lib/src/wasm_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 0beae6f..a6d4861 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -185,7 +185,7 @@ uint32_t cldn_EncodePointcloudMessage(
     // Verify data size matches expected size
     const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
 
-    if (pc_info.data.size() != expected_size) {
+    if (pc_info.data.size() != expected_size || encoding_info.point_step == 0) {
       return 0;
     }
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
-- 
2.43.0


From 9c632e6eb821c5d251157eb8fe65ab1e4d8121ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 22/89] fix: compute cloud sizes in the C interface without
 32-bit overflow

---
 cloudini_lib/src/wasm_functions.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index a6d4861..1871643 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -18,10 +18,28 @@
 
 #include <emscripten.h>
 
+#include <limits>
+#include <stdexcept>
+
 #include "cloudini_lib/cloudini.hpp"
 #include "cloudini_lib/ros_message_definitions.hpp"
 #include "cloudini_lib/ros_msg_utils.hpp"
 
+namespace {
+// Size in bytes of an entire cloud, without 32-bit overflow. The dimensions are not trusted.
+uint64_t cloudSize(uint32_t width, uint32_t height, uint32_t point_step) {
+  const uint64_t points = static_cast<uint64_t>(width) * height;
+  if (points > std::numeric_limits<uint32_t>::max()) {
+    throw std::runtime_error("Too many points");
+  }
+  const uint64_t size = points * point_step;
+  if (size > std::numeric_limits<uint32_t>::max()) {
+    throw std::runtime_error("The size of the cloud can not be represented with 32 bits");
+  }
+  return size;
+}
+}  // namespace
+
 uint32_t cldn_GetHeaderAsYAML(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_yaml_ptr) {
   try {
     const uint8_t* encoded_data = reinterpret_cast<const uint8_t*>(encoded_data_ptr);
@@ -73,7 +91,7 @@ uint32_t cldn_ComputeCompressedSize(uintptr_t dds_msg_ptr, uint32_t dds_msg_size
     Cloudini::PointcloudEncoder pc_encoder(encoding_info);
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const size_t expected_size = cloudSize(pc_info.width, pc_info.height, pc_info.point_step);
 
     if (pc_info.data.size() != expected_size) {
       // Check if dimensions are valid
@@ -94,7 +112,7 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
     const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(encoded_dds_ptr);
     Cloudini::ConstBufferView raw_dds_msg(compressed_data, encoded_dds_size);
     auto compressed_cloud = cloudini_ros::getDeserializedPointCloudMessage(raw_dds_msg);
-    return compressed_cloud.height * compressed_cloud.width * compressed_cloud.point_step;
+    return cloudSize(compressed_cloud.width, compressed_cloud.height, compressed_cloud.point_step);
   } catch (const std::exception& e) {
     EM_ASM({ console.error('Exception in cldn_GetDecompressedSize:', UTF8ToString($0)); }, e.what());
     return 0;
@@ -145,14 +163,15 @@ uint32_t cldn_DecodeCompressedData(uintptr_t encoded_data_ptr, uint32_t encoded_
   Cloudini::ConstBufferView encoded_view(encoded_data, encoded_data_size);
 
   Cloudini::EncodingInfo info;
+  size_t decoded_size = 0;
   try {
     info = Cloudini::DecodeHeader(encoded_view);
+    decoded_size = cloudSize(info.width, info.height, info.point_step);
   } catch (std::exception& ex) {
     EM_ASM({ console.error('Failed to decode header:', UTF8ToString($0)); }, ex.what());
     return 0;
   }
 
-  size_t decoded_size = info.width * info.height * info.point_step;
   uint8_t* decoded_data = reinterpret_cast<uint8_t*>(output_data);
   Cloudini::BufferView decoded_view(decoded_data, decoded_size);
 
@@ -183,7 +202,7 @@ uint32_t cldn_EncodePointcloudMessage(
     }
 
     // Verify data size matches expected size
-    const size_t expected_size = pc_info.width * pc_info.height * pc_info.point_step;
+    const size_t expected_size = cloudSize(pc_info.width, pc_info.height, pc_info.point_step);
 
     if (pc_info.data.size() != expected_size || encoding_info.point_step == 0) {
       return 0;
@@ -220,7 +239,7 @@ uint32_t cldn_EncodePointcloudData(
     const Cloudini::EncodingInfo encoding_info = Cloudini::EncodingInfoFromYAML(header_as_yaml);
 
     // Verify data size matches expected size
-    uint32_t expected_size = encoding_info.width * encoding_info.height * encoding_info.point_step;
+    const uint32_t expected_size = cloudSize(encoding_info.width, encoding_info.height, encoding_info.point_step);
 
     if (pc_data_size != expected_size) {
       EM_ASM({ console.error('Data size mismatch: expected', $0, 'but got', $1); }, expected_size, pc_data_size);
-- 
2.43.0


From cdf3e202efbe2705cb2cac3afeefd0ba6153ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 23/89] fix: never write more than cldn_GetDecompressedSize
 promises in cldn_DecodeCompressedMessage

---
 cloudini_lib/src/wasm_functions.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 1871643..20e6538 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -144,6 +144,15 @@ uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encode
     Cloudini::ConstBufferView dds_data_view(dds_data, encoded_dds_size);
     const auto pcl_msg = cloudini_ros::getDeserializedPointCloudMessage(dds_data_view);
 
+    // The caller allocates what cldn_GetDecompressedSize promised: never write more than that.
+    Cloudini::ConstBufferView header_view(pcl_msg.data);
+    const auto info = Cloudini::DecodeHeader(header_view);
+    if (cloudSize(info.width, info.height, info.point_step) >
+        cloudSize(pcl_msg.width, pcl_msg.height, pcl_msg.point_step)) {
+      EM_ASM({ console.error('The compressed cloud is larger than declared by the message.'); });
+      return 0;
+    }
+
     uintptr_t compressed_data_ptr = reinterpret_cast<uintptr_t>(pcl_msg.data.data());
     uint32_t decoded_size = cldn_DecodeCompressedData(compressed_data_ptr, pcl_msg.data.size(), output_data);
 
-- 
2.43.0


From db4340bfa872d95cb1a52d8e69e7e1b64f56252b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 24/89] fix: do not stop at comments and blank lines when
 reading a PCD header

---
 cloudini_lib/src/pcl_conversion.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 64d6fd5..568d010 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -27,11 +27,16 @@ std::vector<std::string_view> splitString(std::string_view str, char delimiter =
   std::string_view::size_type start = 0;
   std::string_view::size_type end = 0;
 
+  // consecutive delimiters don't generate empty tokens
   while ((end = str.find(delimiter, start)) != std::string_view::npos) {
-    tokens.push_back(str.substr(start, end - start));
+    if (end > start) {
+      tokens.push_back(str.substr(start, end - start));
+    }
     start = end + 1;
   }
-  tokens.push_back(str.substr(start));
+  if (start < str.size()) {
+    tokens.push_back(str.substr(start));
+  }
   return tokens;
 }
 
@@ -42,8 +47,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
   std::vector<std::string> fields_size;
   std::vector<std::string> fields_type;
 
-  do {
-    std::getline(stream, line);
+  while (std::getline(stream, line)) {
     line = line.substr(0, line.find('#'));   // Remove comments
     line = line.substr(0, line.find('\r'));  // Remove carriage return if present
     line = line.substr(0, line.find('\n'));  // Remove newline if present
@@ -62,7 +66,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     } else if (line_key == "DATA") {
       break;
     }
-  } while (!line.empty());
+  }
 
   const size_t num_fields = fields_name.size();
 
-- 
2.43.0


From 4a436807d6a4c3d19a00a12e43f178fab93379d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 25/89] fix: recognise FLOAT64 and INT64 fields in PCD headers

---
 cloudini_lib/src/pcl_conversion.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 568d010..a9eafc1 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -80,7 +80,7 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     const std::string name = std::string(fields_name[i]);
     const int bytes = std::stoi(std::string(fields_size[i]));
     FieldType type = FieldType::UNKNOWN;
-    if (fields_type[i] == "F" && bytes == 4) {
+    if (fields_type[i] == "F") {
       if (bytes == 4) {
         type = FieldType::FLOAT32;
       } else if (bytes == 8) {
@@ -93,6 +93,8 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
         type = FieldType::INT16;
       } else if (bytes == 4) {
         type = FieldType::INT32;
+      } else if (bytes == 8) {
+        type = FieldType::INT64;
       }
     } else if (fields_type[i] == "U") {
       if (bytes == 1) {
-- 
2.43.0


From 56f50d24d26621216571a35cb6e67063bbdb72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 26/89] fix: use the stride of PointT when decoding into a
 pcl::PointCloud

---
 cloudini_lib/include/cloudini_lib/pcl_conversion.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index 6d2bada..b9e65fb 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -155,6 +155,9 @@ inline void PointcloudDecode(ConstBufferView serialized_data, pcl::PointCloud<Po
     }
   }
 
+  // points are written to cloud.points, that may have a different stride
+  header_info.point_step = sizeof(PointT);
+
   // decode the data
   BufferView output_view(reinterpret_cast<uint8_t*>(cloud.points.data()), cloud.points.size() * sizeof(PointT));
   PointcloudDecoder decoder;
-- 
2.43.0


From 417deccf241b800d873dad732c0931abe9da2549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 27/89] fix: honour encoding, compression and intensity
 resolution in pcd_to_cloudini_converter

---
 .../include/cloudini_lib/pcl_conversion.hpp        |  6 ++++--
 cloudini_lib/src/pcl_conversion.cpp                |  6 +++++-
 .../tools/src/pcd_to_cloudini_converter.cpp        | 14 +++++++++++++-
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
index b9e65fb..93c0676 100644
--- a/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
+++ b/cloudini_lib/include/cloudini_lib/pcl_conversion.hpp
@@ -22,6 +22,7 @@
 
 #include <cloudini_lib/cloudini.hpp>
 #include <filesystem>
+#include <functional>
 #include <map>
 #include <string>
 #include <vector>
@@ -75,9 +76,10 @@ size_t PCLPointCloudEncode(
     const pcl::PointCloud<PointT>& cloud, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ);
 
 // Use this function to convert a PCD file directly. This is particularly recommended when the pointcloud contains
-// UINT64 or INT64 fields
+// UINT64 or INT64 fields. The optional callback "configure" can change the encoding options.
 size_t PCLPointCloudEncode(
-    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ);
+    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ,
+    const std::function<void(EncodingInfo&)>& configure = {});
 
 /**
  * @brief Decodes a serialized point cloud into a pcl::PCLPointCloud2 object.
diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index a9eafc1..3f801b3 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -225,7 +225,8 @@ size_t PCLPointCloudEncode(
 }
 
 size_t PCLPointCloudEncode(
-    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ) {
+    const std::filesystem::path& input_pcd_file, std::vector<uint8_t>& serialized_cloud, double resolution_XYZ,
+    const std::function<void(EncodingInfo&)>& configure) {
   pcl::PCLPointCloud2 cloud;
   if (pcl::io::loadPCDFile(input_pcd_file.string(), cloud) == -1) {
     throw std::runtime_error("Error: Failed to load PCD file: " + input_pcd_file.string());
@@ -240,6 +241,9 @@ size_t PCLPointCloudEncode(
       field.type = pcd_fields_map.at(field.name);
     }
   }
+  if (configure) {
+    configure(info);
+  }
   PointcloudEncoder encoder(info);
   ConstBufferView data_view(cloud.data.data(), cloud.data.size());
   return encoder.encode(data_view, serialized_cloud);
diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 8f67512..1dbe69e 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -131,7 +131,19 @@ int main(int argc, char** argv) {
     try {
       // Encode the point cloud
       std::vector<uint8_t> serialized_cloud;
-      const size_t encoded_size = Cloudini::PCLPointCloudEncode(input_file, serialized_cloud, resolution_xyz);
+      auto configure = [&](Cloudini::EncodingInfo& info) {
+        info.encoding_opt = encoding_opt;
+        info.compression_opt = compression_opt;
+        for (auto& field : info.fields) {
+          if (field.name == "intensity" && field.type == Cloudini::FieldType::FLOAT32) {
+            field.resolution = std::nullopt;
+            if (resolution_intensity > 0.0) {
+              field.resolution = static_cast<float>(resolution_intensity);
+            }
+          }
+        }
+      };
+      Cloudini::PCLPointCloudEncode(input_file, serialized_cloud, resolution_xyz, configure);
       // Write to output file
       std::ofstream output_stream(output_file, std::ios::binary);
       if (!output_stream) {
-- 
2.43.0


From 1393c68b408c91efbfdd6a82ccf3bf91e261e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 28/89] fix: decode 64-bit integer fields in the Python decoder

---
 cloudini_py/cloudini_decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index de6a7af..1ee9698 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -346,6 +346,8 @@ class CloudiniDecoder:
             'INT8': np.int8,
             'INT16': np.int16,
             'INT32': np.int32,
+            'INT64': np.int64,
+            'UINT64': np.uint64,
         }
 
         # Create structured dtype from fields
-- 
2.43.0


From ce46460abb39b75692ced51266eab49fb3c3ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 29/89] fix: allocate enough memory for long YAML headers in
 the Python decoder

---
 cloudini_py/cloudini_decoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 1ee9698..d5ee527 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -223,7 +223,8 @@ class CloudiniDecoder:
         """
         # Allocate memory for input and output
         input_ptr = self.allocate(len(compressed_msg))
-        yaml_buffer_size = 4096  # Should be enough for YAML header
+        # the YAML is longer than the header stored in the message, when the latter is binary
+        yaml_buffer_size = 4096 + 16 * len(compressed_msg)
         yaml_ptr = self.allocate(yaml_buffer_size)
 
         try:
-- 
2.43.0


From 18bf952a4e353a0737eecc7646688434c443fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 30/89] fix: grow the output buffer of the Python decoder for
 large clouds

---
 cloudini_py/cloudini_decoder.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index d5ee527..6f55811 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -108,8 +108,9 @@ class CloudiniDecoder:
         # Get the cloudini functions
         self.decode_compressed_msg = exports.get('cldn_DecodeCompressedMessage')
         self.get_header_as_yaml = exports.get('cldn_GetHeaderAsYAMLFromDDS')
+        self.get_decompressed_size = exports.get('cldn_GetDecompressedSize')
 
-        if not all([self.decode_compressed_msg, self.get_header_as_yaml]):
+        if not all([self.decode_compressed_msg, self.get_header_as_yaml, self.get_decompressed_size]):
             raise RuntimeError("Could not find required Cloudini functions in WASM module")
 
         # Initialize WASM module (call constructors)
@@ -120,7 +121,9 @@ class CloudiniDecoder:
         # Simple allocator offset (start at 2MB to avoid stack/heap)
         self.alloc_offset = 2 * 1024 * 1024
 
-        self.output_ptr = self.allocate(32 * 1024 * 1024) # allocate 32 megabytes as worst case scenario
+        # allocate 32 megabytes initially; replaced by a larger buffer when a message needs it
+        self.output_size = 32 * 1024 * 1024
+        self.output_ptr = self.allocate(self.output_size)
 
         print("WASM module loaded successfully!")
 
@@ -167,6 +170,15 @@ class CloudiniDecoder:
             # Write compressed message to WASM memory
             self.write_bytes(input_ptr, compressed_msg)
 
+            # Make sure that the decoded cloud fits in the output buffer
+            required_size = self.get_decompressed_size(self.store, input_ptr, len(compressed_msg)) & 0xFFFFFFFF
+            if required_size > self.output_size:
+                output_ptr = self.allocate(required_size)
+                if output_ptr == 0:
+                    raise RuntimeError("Failed to allocate memory for the decoded cloud")
+                self.deallocate(self.output_ptr)
+                self.output_ptr = output_ptr
+                self.output_size = required_size
 
             # Convert compressed message to PointCloud2 message
             actual_size = self.decode_compressed_msg(self.store, input_ptr, len(compressed_msg), self.output_ptr)
-- 
2.43.0


From 0d8436190008e26df9ecf3da3fcba85d00a89ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 31/89] fix: a moved-from RosPointCloud2 must not refer to the
 memory of another message

---
 cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp b/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
index 1b83ba7..923b039 100644
--- a/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/ros_msg_utils.hpp
@@ -87,6 +87,9 @@ struct RosPointCloud2 {
     owned_data = std::move(other.owned_data);
     if (owned_data_view) {
       data = Cloudini::ConstBufferView(owned_data.data(), owned_data.size());
+      // "other" must not refer to memory that it doesn't own anymore
+      other.owned_data.clear();
+      other.data = Cloudini::ConstBufferView();
     }
   }
 
@@ -127,6 +130,9 @@ struct RosPointCloud2 {
     owned_data = std::move(other.owned_data);
     if (owned_data_view) {
       data = Cloudini::ConstBufferView(owned_data.data(), owned_data.size());
+      // "other" must not refer to memory that it doesn't own anymore
+      other.owned_data.clear();
+      other.data = Cloudini::ConstBufferView();
     }
     return *this;
   }
-- 
2.43.0


From b1d10ec90b7b90e6f5b642614f3bd672b4facc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 32/89] fix: set the format of the messages published by the
 plugin (required by ReadEncodingInfo)

---
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index 36db50c..e7a0d01 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -75,6 +75,7 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
 
   // resize the compressed data to the actual size
   result.compressed_data.resize(new_size);
+  result.format = "cloudini";
   return result;
 }
 
-- 
2.43.0


From c8f66300819fc0a88feea565f61398ebda337e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 33/89] fix: encode a difference of INT64_MIN without colliding
 with the NaN marker

---
 .../include/cloudini_lib/encoding_utils.hpp         | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 53ade08..3885558 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -65,6 +65,12 @@ inline size_t encodeVarint64(int64_t value, uint8_t* ptr) {
   uint64_t val = static_cast<uint64_t>((value << 1) ^ (value >> 63));  // Zig-zag encoding
   val++;                                                               // reserving value 0 for NaN
   uint8_t* ptr_start = ptr;
+  if (val == 0) {
+    // The difference was INT64_MIN and the value to write is 2^64: not the NaN marker, but a varint of 10 bytes.
+    memset(ptr, 0x80, 9);
+    ptr[9] = 0x02;
+    return 10;
+  }
   while (val > 0x7F) {
     *ptr = (static_cast<uint8_t>((val & 0x7F) | 0x80));
     val >>= 7;
@@ -110,6 +116,7 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
   }
   uint64_t uval;
   size_t count;
+  bool is_two_pow_64 = false;  // 2^64 is the encoding of INT64_MIN (see encodeVarint64)
   const uint8_t b0 = buf[0];
   if ((b0 & 0x80) == 0) {
     // 1-byte varint: by far the most common case for small deltas. Fully safe
@@ -133,6 +140,10 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
       uint8_t byte = *ptr;
       ptr++;
       const uint8_t payload = byte & 0x7f;
+      if (shift == 63 && byte == 0x02 && uval == 0) {
+        is_two_pow_64 = true;
+        break;
+      }
       if (shift >= 64 || (shift == 63 && payload > 1)) {
         throw std::runtime_error("decodeVarint: value overflow");
       }
@@ -147,7 +158,7 @@ inline size_t decodeVarint(const uint8_t* buf, size_t max_size, int64_t& val) {
     }
     count = static_cast<size_t>(ptr - buf);
   }
-  if (uval == 0) {
+  if (uval == 0 && !is_two_pow_64) {
     throw std::runtime_error("decodeVarint: unexpected NaN marker");
   }
   uval--;
-- 
2.43.0


From fe6d3a1b9e33f8487c51ba2ebb0fe49d8efb28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 34/89] fix: saturate values outside the int64 range in the
 lossy float encoder

---
 cloudini_lib/include/cloudini_lib/field_encoder.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_encoder.hpp b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
index 92d589d..fb4d7a8 100644
--- a/cloudini_lib/include/cloudini_lib/field_encoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
@@ -17,6 +17,7 @@
 #pragma once
 
 #include <array>
+#include <limits>
 #include <stdexcept>
 
 #include "cloudini_lib/encoding_utils.hpp"
@@ -348,7 +349,12 @@ inline size_t FieldEncoderFloat_Lossy<FloatType>::encode(const ConstBufferView&
     output.trim_front(1);
     return 1;
   }
-  const int64_t value = static_cast<int64_t>(std::round(value_real * multiplier_));
+  // saturate infinities and values that do not fit: converting them to an integer is undefined behavior
+  constexpr FloatType limit = 9223372036854775808.0;  // 2^63
+  const FloatType quantized = std::round(value_real * multiplier_);
+  const int64_t value = !(quantized >= -limit)  ? std::numeric_limits<int64_t>::min()
+                        : (quantized >= limit) ? std::numeric_limits<int64_t>::max()
+                                               : static_cast<int64_t>(quantized);
   const int64_t delta = wrappingSub(value, prev_value_);
   prev_value_ = value;
   auto count = encodeVarint64(delta, output.data());
-- 
2.43.0


From 18c96fa6be7bf133ea622525be845b74b8418ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 35/89] fix: report version 2 streams that do not contain the
 declared points

---
 cloudini_lib/src/cloudini.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 0644838..8cf31a9 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -675,7 +675,13 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
       throw std::runtime_error("Encoded data ended before all declared points were decoded");
     }
   } else {
+    // a single chunk that contains all the points
+    const size_t declared_size = static_cast<size_t>(info.width) * info.height * info.point_step;
+    const size_t output_size = output.size();
     decodeChunk(info, compressed_data, output, /*expected_points=*/0);
+    if (output_size - output.size() != declared_size) {
+      throw std::runtime_error("Encoded data does not contain the declared number of points");
+    }
   }
 }
 
-- 
2.43.0


From df0a7d0f447de365c89272261a61a80ae57e5b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 36/89] fix: refuse a resolution that is not positive also for
 grouped float fields

---
 cloudini_lib/include/cloudini_lib/field_encoder.hpp | 2 +-
 cloudini_lib/src/field_encoder.cpp                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/field_encoder.hpp b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
index fb4d7a8..1e2521b 100644
--- a/cloudini_lib/include/cloudini_lib/field_encoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
@@ -101,7 +101,7 @@ class FieldEncoderFloat_Lossy : public FieldEncoder {
  public:
   FieldEncoderFloat_Lossy(size_t field_offset, FloatType resolution)
       : offset_(field_offset), multiplier_(1.0 / resolution) {
-    if (resolution <= 0.0) {
+    if (!(resolution > 0.0)) {
       throw std::runtime_error("FieldEncoder(Float/Lossy) requires a resolution with value > 0.0");
     }
   }
diff --git a/cloudini_lib/src/field_encoder.cpp b/cloudini_lib/src/field_encoder.cpp
index b682fb0..5e54051 100644
--- a/cloudini_lib/src/field_encoder.cpp
+++ b/cloudini_lib/src/field_encoder.cpp
@@ -31,10 +31,10 @@ FieldEncoderFloatN_Lossy::FieldEncoderFloatN_Lossy(const std::vector<FieldData>&
   }
 
   for (size_t i = 0; i < fields_count_; ++i) {
-    multiplier_[i] = 1.0F / (field_data[i].resolution);
-    if (multiplier_[i] <= 0.0) {
+    if (!(field_data[i].resolution > 0.0F)) {
       throw std::runtime_error("FieldEncoderFloatN_Lossy requires a resolution with value > 0.0");
     }
+    multiplier_[i] = 1.0F / (field_data[i].resolution);
     offset_[i] = field_data[i].offset;
   }
 }
-- 
2.43.0


From 559cc56dd6d99674b55b03dbc1f52c556aee93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 37/89] fix: read the UNKNOWN field type back from text headers

---
 cloudini_lib/src/cloudini.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 8cf31a9..d1f1025 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -139,6 +139,8 @@ FieldType FieldTypeFromString(std::string_view str) {
     return FieldType::INT64;
   } else if (str == "UINT64") {
     return FieldType::UINT64;
+  } else if (str == "UNKNOWN") {
+    return FieldType::UNKNOWN;
   } else {
     int val = std::stoi(std::string(str));
     if (val >= static_cast<int>(FieldType::UNKNOWN) && val <= static_cast<int>(FieldType::UINT64)) {
-- 
2.43.0


From 735a1f921de2c11a35fe573276917133368514fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 38/89] fix: do not wait forever for a compression worker that
 could not be restarted

---
 cloudini_lib/src/cloudini.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index d1f1025..972625e 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -547,7 +547,8 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
     bool need_respawn = false;
     {
       std::lock_guard<std::mutex> lock(mutex_);
-      need_respawn = worker_failed_;
+      // not joinable: an earlier attempt to start the worker failed
+      need_respawn = worker_failed_ || !compressing_thread_.joinable();
     }
     if (need_respawn) {
       if (compressing_thread_.joinable()) {
-- 
2.43.0


From c33626164e57ce6ac795fa530acb259010b8e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 39/89] fix: do not let a wrapped coordinate offset pass in
 applyVizLossyPreprocessing

---
 cloudini_lib/src/ros_msg_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index 1843971..e67bdf8 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -281,7 +281,7 @@ void applyVizLossyPreprocessing(RosPointCloud2& pc_info) {
   if (!(xyz_res > 0.0f) || !std::isfinite(xyz_res)) {
     return;
   }
-  if (static_cast<uint64_t>(f2.offset) + sizeof(float) > pc_info.point_step) {
+  if (static_cast<uint64_t>(f0.offset) + 3 * sizeof(float) > pc_info.point_step) {
     return;
   }
   const float inv_res = 1.0f / xyz_res;
-- 
2.43.0


From cedcb4755dd26cfcad724667a92f9c16f2846ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 40/89] fix: do not share a static buffer between callers of
 cldn_ConvertCompressedMsgToPointCloud2Msg

---
 cloudini_lib/src/wasm_functions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index 20e6538..d62dd6e 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -122,7 +122,8 @@ uint32_t cldn_GetDecompressedSize(uintptr_t encoded_dds_ptr, uint32_t encoded_dd
 uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
     uintptr_t compressed_msg_ptr, uint32_t encoded_data_size, uintptr_t output_msg_ptr) {
   const uint8_t* compressed_data = reinterpret_cast<const uint8_t*>(compressed_msg_ptr);
-  static std::vector<uint8_t> output_msg_buffer;
+  // not static: callers in different threads must not share it
+  std::vector<uint8_t> output_msg_buffer;
 
   try {
     const auto pc_info = cloudini_ros::getDeserializedPointCloudMessage({compressed_data, encoded_data_size});
-- 
2.43.0


From 44a2827ad474f521b7c921d9ea977687b1b01cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 41/89] fix: do not write a truncated YAML header when the
 memory is exhausted

---
 cloudini_lib/src/cloudini.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 972625e..07bbf8d 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -168,6 +168,8 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
 
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
+  // without this, the stream hides allocation failures and the output is truncated
+  yaml.exceptions(std::ios::badbit | std::ios::failbit);
   yaml << "version: " << static_cast<int>(info.version) << "\n";
   yaml << "width: " << info.width << "\n";
   yaml << "height: " << info.height << "\n";
-- 
2.43.0


From f14b63149585e70b8858e047f47c5deae96a3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:23 +0000
Subject: [PATCH 42/89] fix: recognise 64-bit integer fields of a
 PCLPointCloud2

---
 cloudini_lib/src/pcl_conversion.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 3f801b3..3fdf20c 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -168,6 +168,13 @@ EncodingInfo ConvertToEncodingInfo(const pcl::PCLPointCloud2& cloud, double reso
       case pcl::PCLPointField::UINT32:
         point_field.type = FieldType::UINT32;
         break;
+      // the 64-bit integer types have no name in old versions of PCL, but the same value everywhere
+      case static_cast<uint8_t>(FieldType::INT64):
+        point_field.type = FieldType::INT64;
+        break;
+      case static_cast<uint8_t>(FieldType::UINT64):
+        point_field.type = FieldType::UINT64;
+        break;
       default:
         point_field.type = FieldType::UNKNOWN;
         break;
-- 
2.43.0


From 9149a6ce132b52dcad52f44c2c1f80c2083e99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 43/89] fix: do not quantize the packed colors of a
 PCLPointCloud2

---
 cloudini_lib/src/pcl_conversion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 3fdf20c..6eb5f65 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -180,8 +180,11 @@ EncodingInfo ConvertToEncodingInfo(const pcl::PCLPointCloud2& cloud, double reso
         break;
     }
 
+    // PCL stores packed colors in FLOAT32 fields, that must not be quantized
+    const bool is_color = (field.name == "rgb" || field.name == "rgba");
+
     // If the field is a FLOAT32 and has a resolution, set it
-    if (point_field.type == FieldType::FLOAT32 && resolution_XYZ > 0.0) {
+    if (point_field.type == FieldType::FLOAT32 && resolution_XYZ > 0.0 && !is_color) {
       point_field.resolution = resolution_XYZ;
     } else {
       point_field.resolution = std::nullopt;
-- 
2.43.0


From c36170bdf5498f6205b67486184b53a5a0debfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 44/89] fix: report write errors in pcd_to_cloudini_converter

---
 cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 1dbe69e..6f757d8 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -152,6 +152,10 @@ int main(int argc, char** argv) {
       }
       output_stream.write(reinterpret_cast<const char*>(serialized_cloud.data()), serialized_cloud.size());
       output_stream.close();
+      if (!output_stream) {
+        std::cerr << "Error: Failed to write output file: " << output_file << std::endl;
+        return false;
+      }
       return true;
 
     } catch (const std::exception& e) {
-- 
2.43.0


From 7881561db219e593f1713bcede59fc1df3e40232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 45/89] fix: keep field names with special characters in the
 YAML header

A name with a '#', blanks at its ends, a newline or no characters was written as such and
came back changed, or made the whole stream unreadable. Such names are now quoted.
---
 cloudini_lib/src/cloudini.cpp   | 63 +++++++++++++++++++++++++++++++--
 cloudini_py/cloudini_decoder.py |  7 +++-
 2 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 07bbf8d..d915983 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -19,6 +19,7 @@
 #include <algorithm>
 #include <cctype>
 #include <charconv>
+#include <cstdio>
 #include <cstring>
 #include <limits>
 #include <sstream>
@@ -166,6 +167,64 @@ CompressionOption CompressionOptionFromString(std::string_view str) {
   throw std::runtime_error("Invalid CompressionOption string: " + std::string(str));
 }
 
+namespace {
+// The YAML parser removes comments and surrounding blanks and splits at newlines. The names that would
+// not survive that are written between quotes, with the critical characters escaped.
+std::string quoteName(const std::string& name) {
+  const auto is_blank = [](char c) { return std::isspace(static_cast<unsigned char>(c)) != 0; };
+  const auto is_critical = [](char c) { return c == '#' || static_cast<unsigned char>(c) < 0x20; };
+  if (!name.empty() && !is_blank(name.front()) && !is_blank(name.back()) && name.front() != '"' &&
+      std::none_of(name.begin(), name.end(), is_critical)) {
+    return name;
+  }
+  std::string quoted = "\"";
+  for (const char c : name) {
+    if (is_critical(c)) {
+      char escaped[8];
+      std::snprintf(escaped, sizeof(escaped), "\\u%04x", static_cast<unsigned>(static_cast<unsigned char>(c)));
+      quoted += escaped;
+    } else {
+      if (c == '"' || c == '\\') {
+        quoted += '\\';
+      }
+      quoted += c;
+    }
+  }
+  return quoted + '"';
+}
+
+std::string unquoteName(const std::string& text) {
+  if (text.size() < 2 || text.front() != '"' || text.back() != '"') {
+    return text;
+  }
+  std::string name;
+  for (size_t i = 1; i + 1 < text.size(); ++i) {
+    if (text[i] != '\\') {
+      name += text[i];
+      continue;
+    }
+    const char* const end = text.data() + text.size() - 1;
+    const char* const next = text.data() + i + 1;
+    if (next < end && (*next == '"' || *next == '\\')) {
+      name += *next;
+      i += 1;
+      continue;
+    }
+    uint8_t value = 0;
+    if (end - next < 5 || *next != 'u') {
+      return text;  // not written by quoteName
+    }
+    const auto res = std::from_chars(next + 1, next + 5, value, 16);
+    if (res.ec != std::errc() || res.ptr != next + 5) {
+      return text;
+    }
+    name += static_cast<char>(value);
+    i += 5;
+  }
+  return name;
+}
+}  // namespace
+
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
   // without this, the stream hides allocation failures and the output is truncated
@@ -183,7 +242,7 @@ std::string EncodingInfoToYAML(const EncodingInfo& info) {
   yaml << "fields:\n";
 
   for (const auto& field : info.fields) {
-    yaml << "  - name: " << field.name << "\n";
+    yaml << "  - name: " << quoteName(field.name) << "\n";
     yaml << "    offset: " << field.offset << "\n";
     yaml << "    type: " << ToString(field.type) << "\n";
     if (field.resolution.has_value()) {
@@ -227,7 +286,7 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
     for (size_t i = 0; i < fields_node.size(); ++i) {
       const auto& field_node = fields_node[i];
       PointField field;
-      field.name = field_node["name"].as<std::string>();
+      field.name = unquoteName(field_node["name"].as<std::string>());
       field.offset = field_node["offset"].as<uint32_t>();
       field.type = FieldTypeFromString(field_node["type"].as<std::string_view>());
 
diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 6f55811..05712c8 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -9,6 +9,8 @@ Copyright 2025 Davide Faconti
 Licensed under the Apache License, Version 2.0
 """
 
+import json
+
 import numpy as np
 from wasmtime import Store, Module, Linker, WasiConfig, Func, Engine, Config
 
@@ -270,7 +272,10 @@ class CloudiniDecoder:
                     if stripped.startswith('- name:'):
                         if current_field:
                             fields.append(current_field)
-                        current_field = {'name': stripped.split(':', 1)[1].strip()}
+                        name = stripped.split(':', 1)[1].strip()
+                        if len(name) >= 2 and name[0] == '"' and name[-1] == '"':
+                            name = json.loads(name)  # quoted, because it contains special characters
+                        current_field = {'name': name}
                     elif stripped and ':' in stripped and not stripped.startswith('-'):
                         # Field property
                         key, value = stripped.split(':', 1)
-- 
2.43.0


From 42426ba1abab124f0b45b52a25e37f771e7a3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 46/89] fix: report a failed allocation in get_header_info of
 the Python decoder

The header was written to and read from address 0 of the module's memory. Also ask for less.
---
 cloudini_py/cloudini_decoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cloudini_py/cloudini_decoder.py b/cloudini_py/cloudini_decoder.py
index 05712c8..f094688 100644
--- a/cloudini_py/cloudini_decoder.py
+++ b/cloudini_py/cloudini_decoder.py
@@ -237,11 +237,15 @@ class CloudiniDecoder:
         """
         # Allocate memory for input and output
         input_ptr = self.allocate(len(compressed_msg))
-        # the YAML is longer than the header stored in the message, when the latter is binary
-        yaml_buffer_size = 4096 + 16 * len(compressed_msg)
+        # the YAML is longer than the header stored in the message, when the latter is binary:
+        # the names may be escaped, and there are less than 100 other bytes for each of up to 65535 fields
+        yaml_buffer_size = 4096 + 6 * len(compressed_msg) + min(10 * len(compressed_msg), 8 * 1024 * 1024)
         yaml_ptr = self.allocate(yaml_buffer_size)
 
         try:
+            if input_ptr == 0 or yaml_ptr == 0:
+                raise RuntimeError("Failed to allocate memory for the header")
+
             self.write_bytes(input_ptr, compressed_msg)
 
             # Get header as YAML
-- 
2.43.0


From 0ba78027397d2deb19e75e1c0abe0359b116e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 47/89] fix: report malformed messages of the subscriber plugin
 instead of throwing

The exception left the callback of the subscription and terminated the node.
---
 cloudini_ros/src/cloudini_subscriber_plugin.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index c8d8675..7a0c9c3 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -17,6 +17,8 @@
 #include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
 
 #include <exception>
+#include <stdexcept>
+#include <string>
 
 #include "cloudini_lib/cloudini.hpp"
 
@@ -27,7 +29,7 @@ CloudiniSubscriber::CloudiniSubscriber() : decoder_(std::make_shared<Cloudini::P
 }
 
 CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
-    const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const {
+    const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const try {
   Cloudini::ConstBufferView input(msg.compressed_data.data(), msg.compressed_data.size());
   auto info = Cloudini::DecodeHeader(input);
 
@@ -76,6 +78,9 @@ CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
   decoder_->decode(info, input, output);
 
   return result;
+} catch (const std::exception& e) {
+  // an exception would leave the callback of the subscription and terminate the node
+  return tl::make_unexpected(std::string(e.what()));
 }
 
 }  // namespace cloudini_point_cloud_transport
-- 
2.43.0


From 8f65aa824a2cd274c5fdc6050c28636875d86b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 48/89] fix: report clouds that can not be encoded by the
 publisher plugin

A cloud whose data does not match its dimensions (padded rows) was published as a message that can not
be decoded, other invalid clouds ended in an exception.
---
 cloudini_ros/src/cloudini_publisher_plugin.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cloudini_ros/src/cloudini_publisher_plugin.cpp b/cloudini_ros/src/cloudini_publisher_plugin.cpp
index e7a0d01..8c0033d 100644
--- a/cloudini_ros/src/cloudini_publisher_plugin.cpp
+++ b/cloudini_ros/src/cloudini_publisher_plugin.cpp
@@ -16,6 +16,7 @@
 
 #include "cloudini_plugin/cloudini_publisher_plugin.hpp"
 
+#include <stdexcept>
 #include <string>
 
 #include "cloudini_ros/conversion_utils.hpp"
@@ -50,7 +51,12 @@ void CloudiniPublisher::declareParameters(const std::string& base_topic) {
   setParamCallback(param_change_callback);
 }
 
-CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const {
+CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const try {
+  // the compressed data could not be decoded with the declared dimensions (e.g. when rows are padded)
+  if (raw.data.size() != static_cast<size_t>(raw.width) * raw.height * raw.point_step) {
+    throw std::runtime_error("the data of the PointCloud2 does not match its dimensions");
+  }
+
   auto info = Cloudini::ConvertToEncodingInfo(raw, resolution_);
   Cloudini::PointcloudEncoder encoder(info);
 
@@ -77,6 +83,8 @@ CloudiniPublisher::TypedEncodeResult CloudiniPublisher::encodeTyped(const sensor
   result.compressed_data.resize(new_size);
   result.format = "cloudini";
   return result;
+} catch (const std::exception& e) {
+  return tl::make_unexpected(std::string("Cloudini encoding failed: ") + e.what());
 }
 
 }  // namespace cloudini_point_cloud_transport
-- 
2.43.0


From 87640ec878bde94e57b46f24bc5e29e794e42a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 49/89] fix: drop malformed messages in the topic converter
 instead of terminating the node

---
 cloudini_ros/src/topic_converter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudini_ros/src/topic_converter.cpp b/cloudini_ros/src/topic_converter.cpp
index a1bec21..ba4f588 100644
--- a/cloudini_ros/src/topic_converter.cpp
+++ b/cloudini_ros/src/topic_converter.cpp
@@ -153,7 +153,7 @@ CloudiniPointcloudConverter::CloudiniPointcloudConverter(const rclcpp::NodeOptio
   point_cloud_publisher_ = this->create_generic_publisher(output_topic, output_topic_type, detected_qos);
 }
 
-void CloudiniPointcloudConverter::callback(std::shared_ptr<rclcpp::SerializedMessage> msg) {
+void CloudiniPointcloudConverter::callback(std::shared_ptr<rclcpp::SerializedMessage> msg) try {
   // Skip processing if there are no subscribers
   if (point_cloud_publisher_->get_subscription_count() == 0) {
     return;
@@ -194,6 +194,9 @@ void CloudiniPointcloudConverter::callback(std::shared_ptr<rclcpp::SerializedMes
     RCLCPP_INFO(this->get_logger(), "Converted %d messages, average compression ratio: %.2f", count, average_ratio);
   }
   count++;
+} catch (const std::exception& e) {
+  // drop the message: an exception leaving the callback would terminate the node
+  RCLCPP_ERROR(this->get_logger(), "Failed to convert a point cloud: %s", e.what());
 }
 
 RCLCPP_COMPONENTS_REGISTER_NODE(CloudiniPointcloudConverter)
-- 
2.43.0


From 82bfca3aadf0ff82de6e9aa5872978e7bb8ee7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 50/89] fix: pass header and density of the message to the
 clouds of CloudiniSubscriberPCL

They had neither timestamp nor frame, and clouds with NaN were declared dense.
---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index cc0752b..73f17b2 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -109,6 +109,11 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
     PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    pcl_cloud->header.stamp =
+        static_cast<uint64_t>(static_cast<int64_t>(pc_info.ros_header.stamp_sec) * 1000000) +
+        pc_info.ros_header.stamp_nsec / 1000;  // microseconds
+    pcl_cloud->header.frame_id = pc_info.ros_header.frame_id;
+    pcl_cloud->is_dense = pc_info.is_dense;
 
     // STEP 5: Invoke user callback with the decoded PCL cloud
     user_callback_(pcl_cloud);
-- 
2.43.0


From 4e9b947daf3c693f23479f216da2c465911878ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:33 +0000
Subject: [PATCH 51/89] fix: keep the pool of CloudiniSubscriberPCL alive as
 long as its clouds

Releasing the last reference to a cloud after the destruction of the subscriber used freed memory.
---
 .../cloudini_ros/cloudini_subscriber_pcl.hpp  | 12 ++++++---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 27 +++++++++----------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
index 7f8e5a5..d932996 100644
--- a/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
+++ b/cloudini_ros/include/cloudini_ros/cloudini_subscriber_pcl.hpp
@@ -22,6 +22,7 @@
 #include <deque>
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <rclcpp/generic_subscription.hpp>
 #include <rclcpp/rclcpp.hpp>
 #include <rclcpp/serialization.hpp>
@@ -110,10 +111,13 @@ class CloudiniSubscriberPCL {
   // Node pointer for logging
   rclcpp::Node* node_;
 
-  // Object pool for PCL clouds (avoids repeated allocations)
-  std::deque<pcl::PCLPointCloud2*> cloud_pool_;
-
-  std::mutex pool_mutex_;
+  // Object pool for PCL clouds (avoids repeated allocations). Shared with the clouds given to the user.
+  struct CloudPool {
+    ~CloudPool();
+    std::deque<pcl::PCLPointCloud2*> clouds;
+    std::mutex mutex;
+  };
+  std::shared_ptr<CloudPool> pool_ = std::make_shared<CloudPool>();
 
   // Maximum pool size to prevent unbounded growth
   static constexpr size_t MAX_POOL_SIZE = 4;
diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index 73f17b2..6e56e72 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -52,15 +52,14 @@ CloudiniSubscriberPCL::CloudiniSubscriberPCL(
   RCLCPP_INFO(node_->get_logger(), "CloudiniSubscriberPCL created for topic: %s", topic_name.c_str());
 }
 
-CloudiniSubscriberPCL::~CloudiniSubscriberPCL() {
-  // Clean up all objects in the pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  for (auto* ptr : cloud_pool_) {
+CloudiniSubscriberPCL::CloudPool::~CloudPool() {
+  for (auto* ptr : clouds) {
     delete ptr;
   }
-  cloud_pool_.clear();
 }
 
+CloudiniSubscriberPCL::~CloudiniSubscriberPCL() = default;
+
 std::string CloudiniSubscriberPCL::getTopicName() const {
   return subscription_->get_topic_name();
 }
@@ -69,24 +68,24 @@ pcl::PCLPointCloud2::Ptr CloudiniSubscriberPCL::acquireCloudFromPool() {
   pcl::PCLPointCloud2* raw_ptr = nullptr;
 
   // Try to get from pool
-  std::lock_guard<std::mutex> lock(pool_mutex_);
-  if (!cloud_pool_.empty()) {
-    raw_ptr = cloud_pool_.back();
-    cloud_pool_.pop_back();
+  std::lock_guard<std::mutex> lock(pool_->mutex);
+  if (!pool_->clouds.empty()) {
+    raw_ptr = pool_->clouds.back();
+    pool_->clouds.pop_back();
   } else {
     // Pool is empty, allocate new
     raw_ptr = new pcl::PCLPointCloud2();
   }
 
-  // Create shared_ptr with custom deleter that returns to pool
-  return pcl::PCLPointCloud2::Ptr(raw_ptr, [this](pcl::PCLPointCloud2* ptr) {
-    std::lock_guard<std::mutex> lock(pool_mutex_);
+  // Create shared_ptr with custom deleter that returns to pool. The cloud may outlive this object: keep the pool alive.
+  return pcl::PCLPointCloud2::Ptr(raw_ptr, [pool = pool_](pcl::PCLPointCloud2* ptr) {
+    std::lock_guard<std::mutex> lock(pool->mutex);
     // Return to pool if not full, otherwise delete
-    if (cloud_pool_.size() < MAX_POOL_SIZE) {
+    if (pool->clouds.size() < MAX_POOL_SIZE) {
       // Clear the data but keep allocated memory for reuse
       ptr->data.clear();
       ptr->fields.clear();
-      cloud_pool_.push_back(ptr);
+      pool->clouds.push_back(ptr);
     } else {
       delete ptr;
     }
-- 
2.43.0


From 063543576bbb2b376f7828ad19d7d27d120b63c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 52/89] fix: deliver empty clouds in the subscribers

The topic converter and SerializeCompressedPointCloud2 send an empty cloud
without compressed data, which the subscriber plugin and the PCL subscriber
took for a malformed message.
---
 cloudini_ros/src/cloudini_subscriber_pcl.cpp  | 10 ++++++-
 .../src/cloudini_subscriber_plugin.cpp        | 27 +++++++++++--------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/cloudini_ros/src/cloudini_subscriber_pcl.cpp b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
index 6e56e72..9e1f7d7 100644
--- a/cloudini_ros/src/cloudini_subscriber_pcl.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_pcl.cpp
@@ -107,7 +107,15 @@ void CloudiniSubscriberPCL::messageCallback(std::shared_ptr<rclcpp::SerializedMe
 
     // STEP 4: Decode directly to PCL format
     // pc_info.data contains the compressed cloudini data
-    PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    if (pc_info.data.size() == 0 && (pc_info.width == 0 || pc_info.height == 0)) {
+      // special case: empty cloud, which may have no compressed data at all
+      auto empty_info = toEncodingInfo(pc_info);
+      std::vector<uint8_t> empty_data;
+      PointcloudEncoder(empty_info).encode({}, empty_data);
+      PCLPointCloudDecode({empty_data.data(), empty_data.size()}, *pcl_cloud);
+    } else {
+      PCLPointCloudDecode(pc_info.data, *pcl_cloud);
+    }
     pcl_cloud->header.stamp =
         static_cast<uint64_t>(static_cast<int64_t>(pc_info.ros_header.stamp_sec) * 1000000) +
         pc_info.ros_header.stamp_nsec / 1000;  // microseconds
diff --git a/cloudini_ros/src/cloudini_subscriber_plugin.cpp b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
index 7a0c9c3..17cb45b 100644
--- a/cloudini_ros/src/cloudini_subscriber_plugin.cpp
+++ b/cloudini_ros/src/cloudini_subscriber_plugin.cpp
@@ -30,6 +30,22 @@ CloudiniSubscriber::CloudiniSubscriber() : decoder_(std::make_shared<Cloudini::P
 
 CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
     const point_cloud_interfaces::msg::CompressedPointCloud2& msg) const try {
+  auto result = std::make_shared<sensor_msgs::msg::PointCloud2>();
+
+  result->header = msg.header;
+  result->height = msg.height;
+  result->width = msg.width;
+  result->fields = msg.fields;
+  result->is_bigendian = false;
+  result->point_step = msg.point_step;
+  result->row_step = msg.row_step;
+  result->is_dense = msg.is_dense;
+
+  // special case: empty cloud, which may have no compressed data at all
+  if (msg.compressed_data.empty() && (msg.width == 0 || msg.height == 0)) {
+    return result;
+  }
+
   Cloudini::ConstBufferView input(msg.compressed_data.data(), msg.compressed_data.size());
   auto info = Cloudini::DecodeHeader(input);
 
@@ -60,17 +76,6 @@ CloudiniSubscriber::DecodeResult CloudiniSubscriber::decodeTyped(
   }
 
   //----------- actual decoding -------------------
-  auto result = std::make_shared<sensor_msgs::msg::PointCloud2>();
-
-  result->header = msg.header;
-  result->height = info.height;
-  result->width = info.width;
-  result->fields = msg.fields;
-  result->is_bigendian = false;
-  result->point_step = msg.point_step;
-  result->row_step = msg.row_step;
-  result->is_dense = msg.is_dense;
-
   // prepare buffer for decompression
   result->data.resize(msg.point_step * msg.width * msg.height);
   Cloudini::BufferView output(result->data.data(), result->data.size());
-- 
2.43.0


From 208f61aa56c0f9f532076d22428001320f5d41f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 53/89] fix: accept recordings with schemaless channels

A channel of schema id 0 has no schema: the converter dereferenced a null
pointer while it listed the topics.
---
 cloudini_lib/tools/src/mcap_converter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 22432d6..54bc51a 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -46,7 +46,8 @@ McapConverter::TopicsMap McapConverter::open(std::filesystem::path file_in) {
 
   for (const auto& [channel_id, channel_ptr] : reader_->channels()) {
     const auto& schema_ptr = reader_->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name) {
+    // a channel may have no schema at all (schema id 0)
+    if (schema_ptr && (schema_ptr->name == pointcloud_schema_name || schema_ptr->name == compressed_schema_name)) {
       topics[channel_ptr->topic] = schema_ptr->name;
     }
   }
@@ -99,7 +100,9 @@ void McapConverter::duplicateSchemasAndChannels(
 
   for (const auto& channel_id : ordered_channels_id) {
     const auto channel_ptr = old_channels.at(channel_id);
-    auto new_schema_id = old_to_new_schema_id_.at(channel_ptr->schemaId);
+    // schema id 0 means that the channel has no schema
+    const mcap::SchemaId new_schema_id =
+        (channel_ptr->schemaId == 0) ? mcap::SchemaId(0) : old_to_new_schema_id_.at(channel_ptr->schemaId);
     mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
@@ -171,7 +174,7 @@ void McapConverter::encodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != pointcloud_schema_name) {
+    if (!msg.schema || msg.schema->name != pointcloud_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
@@ -268,7 +271,7 @@ void McapConverter::decodePointClouds(
     mcap::Message new_msg = msg.message;
     new_msg.channelId = old_to_new_channel_id_.at(msg.channel->id);
     // default case (not a point cloud)
-    if (msg.schema->name != compressed_schema_name) {
+    if (!msg.schema || msg.schema->name != compressed_schema_name) {
       auto status = writer.write(new_msg);
       if (!status.ok()) {
         throw std::runtime_error("Error writing message to MCAP file: " + status.message);
-- 
2.43.0


From 6338226dc7ec35c46eb119ddf800050b4a77c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 54/89] fix: keep the metadata of the channels in converted
 bags

The QoS profiles that rosbag2 stores there were lost.
---
 cloudini_lib/tools/src/mcap_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 54bc51a..f7eb80f 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -103,7 +103,8 @@ void McapConverter::duplicateSchemasAndChannels(
     // schema id 0 means that the channel has no schema
     const mcap::SchemaId new_schema_id =
         (channel_ptr->schemaId == 0) ? mcap::SchemaId(0) : old_to_new_schema_id_.at(channel_ptr->schemaId);
-    mcap::Channel new_channel(channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id);
+    mcap::Channel new_channel(
+        channel_ptr->topic, channel_ptr->messageEncoding, new_schema_id, channel_ptr->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id_.insert({channel_ptr->id, new_channel.id});
   }
-- 
2.43.0


From ef8a2eec551593933e063aa74a3d5d2727be7127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 55/89] fix: declare the replaced schema as ros2msg

The definitions written in place of the original ones are always in the
ros2msg format, but kept the encoding of the original (e.g. ros2idl).
---
 cloudini_lib/tools/src/mcap_converter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index f7eb80f..1d284e2 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -83,17 +83,20 @@ void McapConverter::duplicateSchemasAndChannels(
     const auto& schema_ptr = old_schemas.at(schema_id);
     auto schema_name = schema_ptr->name;
     auto schema_data = schema_ptr->data;
+    auto schema_encoding = schema_ptr->encoding;
 
     if (encoding && schema_name == pointcloud_schema_name) {
       schema_name = compressed_schema_name;
       copy_string_to_vector(compressed_schema_data, schema_data);
+      schema_encoding = "ros2msg";
     }
     if (!encoding && schema_name == compressed_schema_name) {
       schema_name = pointcloud_schema_name;
       copy_string_to_vector(pointcloud_schema_data, schema_data);
+      schema_encoding = "ros2msg";
     }
 
-    mcap::Schema new_schema(schema_name, schema_ptr->encoding, schema_data);
+    mcap::Schema new_schema(schema_name, schema_encoding, schema_data);
     writer.addSchema(new_schema);
     old_to_new_schema_id_.insert({schema_id, new_schema.id});
   }
-- 
2.43.0


From f5863b59fba71928129b9dcd2ac2e4c562c2b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 56/89] fix: refuse to convert a bag onto itself

The output was truncated before the input was read: both were lost.
---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 66428ba..c02f458 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -244,6 +244,13 @@ int main(int argc, char** argv) {
     return 1;
   }
 
+  // never write on top of the file being read
+  std::error_code same_file_error;
+  if (std::filesystem::equivalent(mcap_file, output_filename, same_file_error)) {
+    std::cerr << "Error: The output is the input file itself: " << output_filename << std::endl;
+    return 1;
+  }
+
   // if file exists already, ask the user to confirm overwriting
   if (std::filesystem::exists(output_filename) && !parse_result.count("yes")) {
     std::cout << "Output file already exists: " << output_filename << std::endl;
-- 
2.43.0


From e0ec4efdae65da17d028045627c41f5fc6420a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 57/89] fix: read the whole profile file

Only its first word was read, dropping or rejecting the rest.
---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index c02f458..036667f 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -319,8 +319,7 @@ int main(int argc, char** argv) {
         // check if it is a file or a string
         if (std::filesystem::exists(profile_str)) {
           std::ifstream file(profile_str);
-          std::string profile;
-          file >> profile;
+          const std::string profile((std::istreambuf_iterator<char>(file)), std::istreambuf_iterator<char>());
           converter.addProfile(profile);
         } else {
           converter.addProfile(profile_str);
-- 
2.43.0


From 00068d66d4e0366a79291ec541646afdde0ab15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 58/89] fix: report the damage found while reading a bag

The part of the recording that could not be read was dropped silently.
---
 cloudini_lib/tools/src/mcap_converter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_converter.cpp b/cloudini_lib/tools/src/mcap_converter.cpp
index 1d284e2..41179a7 100644
--- a/cloudini_lib/tools/src/mcap_converter.cpp
+++ b/cloudini_lib/tools/src/mcap_converter.cpp
@@ -170,7 +170,9 @@ void McapConverter::encodePointClouds(
   duplicateSchemasAndChannels(*reader_, writer, true);
 
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::ProblemCallback problem = [](const mcap::Status& problem_status) {
+    std::cerr << "Problem reading the MCAP file: " << problem_status.message << std::endl;
+  };
 
   std::vector<uint8_t> compressed_dds_msg;
 
@@ -266,7 +268,9 @@ void McapConverter::decodePointClouds(
   duplicateSchemasAndChannels(*reader_, writer, false);
 
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::ProblemCallback problem = [](const mcap::Status& problem_status) {
+    std::cerr << "Problem reading the MCAP file: " << problem_status.message << std::endl;
+  };
 
   std::vector<uint8_t> decoded_cloud;
   std::vector<uint8_t> decoded_dds_msg;
-- 
2.43.0


From 6481ccf9b1e69ccc92aecde72d3bfb6a49620ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 59/89] fix: convert a bag named by its bare file name

With a metadata.yaml in the working directory, the parent path of the
input was empty and canonical() threw out of main().
---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index 036667f..d8c1ce1 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -186,7 +186,8 @@ int main(int argc, char** argv) {
   } else if (input_file.extension() == ".mcap") {
     mcap_file = input_file;
     // Check for sibling metadata.yaml
-    auto meta = input_file.parent_path() / "metadata.yaml";
+    // (absolute: the parent path of a bare file name is empty)
+    auto meta = std::filesystem::absolute(input_file).parent_path() / "metadata.yaml";
     if (std::filesystem::exists(meta)) {
       input_metadata = meta;
     }
-- 
2.43.0


From 32557040c65773374bd7dd2da1b07aca7a0b09c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 60/89] fix: cut and inspect recordings with schemaless
 channels

A channel of schema id 0 has no schema: the tools dereferenced a null
pointer.
---
 cloudini_lib/tools/src/mcap_cutter.cpp           | 3 ++-
 cloudini_lib/tools/src/mcap_header_inspector.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index ab730b0..5e37cb3 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -61,7 +61,8 @@ void McapCutter::cut(
 
   for (const auto& [channel_id, channel_ptr] : reader->channels()) {
     const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-    if (schema_ptr->name == pointcloud_schema_name) {
+    // a channel may have no schema at all (schema id 0)
+    if (schema_ptr && schema_ptr->name == pointcloud_schema_name) {
       pointcloud_channels.push_back({channel_id, channel_ptr->topic});
       std::cout << "Found PointCloud2 topic: " << channel_ptr->topic << std::endl;
     }
diff --git a/cloudini_lib/tools/src/mcap_header_inspector.cpp b/cloudini_lib/tools/src/mcap_header_inspector.cpp
index 9d89959..05c3fbf 100644
--- a/cloudini_lib/tools/src/mcap_header_inspector.cpp
+++ b/cloudini_lib/tools/src/mcap_header_inspector.cpp
@@ -81,7 +81,8 @@ int main(int argc, char** argv) {
     std::vector<mcap::ChannelId> compressed_channels;
     for (const auto& [channel_id, channel_ptr] : reader->channels()) {
       const auto& schema_ptr = reader->schema(channel_ptr->schemaId);
-      if (schema_ptr->name == compressed_schema_name) {
+      // a channel may have no schema at all (schema id 0)
+      if (schema_ptr && schema_ptr->name == compressed_schema_name) {
         compressed_channels.push_back(channel_id);
         std::cout << "Found CompressedPointCloud2 topic: " << channel_ptr->topic << std::endl;
       }
-- 
2.43.0


From 26ce4d4822d636994706eacc1677da7ea9d3784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 61/89] fix: keep the metadata of the channels when cutting a
 recording

The QoS profiles that rosbag2 stores there were lost.
---
 cloudini_lib/tools/src/mcap_cutter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index 5e37cb3..ffddfeb 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -93,7 +93,7 @@ void McapCutter::cut(
   // Create channels for each topic
   std::map<mcap::ChannelId, mcap::ChannelId> old_to_new_channel_id;
   for (const auto& [old_channel_id, topic_name] : pointcloud_channels) {
-    mcap::Channel new_channel(topic_name, "cdr", pointcloud_schema.id);
+    mcap::Channel new_channel(topic_name, "cdr", pointcloud_schema.id, reader->channel(old_channel_id)->metadata);
     writer.addChannel(new_channel);
     old_to_new_channel_id[old_channel_id] = new_channel.id;
   }
-- 
2.43.0


From e9584d778ca65d0c2357a24405500890cb08bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 62/89] fix: refuse to cut a recording onto itself

The output was truncated while the input was being read: both were lost.
---
 cloudini_lib/tools/src/mcap_cutter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index ffddfeb..5b26f9f 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -197,6 +197,13 @@ int main(int argc, char** argv) {
     return 1;
   }
 
+  // never write on top of the file being read
+  std::error_code same_file_error;
+  if (std::filesystem::equivalent(input_file, output_filename, same_file_error)) {
+    std::cerr << "Error: The output is the input file itself: " << output_filename << std::endl;
+    return 1;
+  }
+
   std::cout << "Input file: " << input_file << std::endl;
   std::cout << "Output file: " << output_filename << std::endl;
   std::cout << "Max messages per channel: " << max_messages << std::endl;
-- 
2.43.0


From 4dbcb4501ea6301f6f109f6381d561807144b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 63/89] fix: report the damage found while cutting a recording

The part of the recording that could not be read was dropped silently.
---
 cloudini_lib/tools/src/mcap_cutter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_cutter.cpp b/cloudini_lib/tools/src/mcap_cutter.cpp
index 5b26f9f..050486a 100644
--- a/cloudini_lib/tools/src/mcap_cutter.cpp
+++ b/cloudini_lib/tools/src/mcap_cutter.cpp
@@ -100,7 +100,9 @@ void McapCutter::cut(
 
   // Process messages
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::ProblemCallback problem = [](const mcap::Status& problem_status) {
+    std::cerr << "Problem reading the MCAP file: " << problem_status.message << std::endl;
+  };
 
   std::unordered_map<mcap::ChannelId, int> message_counts;
   int total_messages_written = 0;
-- 
2.43.0


From 7eed1f17df5a7086ce95b75234b698f5f7910c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 64/89] fix: compute the totals of the inspected header in 64
 bits

---
 cloudini_lib/tools/src/mcap_header_inspector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_header_inspector.cpp b/cloudini_lib/tools/src/mcap_header_inspector.cpp
index 05c3fbf..c5e6fa1 100644
--- a/cloudini_lib/tools/src/mcap_header_inspector.cpp
+++ b/cloudini_lib/tools/src/mcap_header_inspector.cpp
@@ -136,9 +136,9 @@ int main(int argc, char** argv) {
       std::cout << "Width: " << encoding_info.width << std::endl;
       std::cout << "Height: " << encoding_info.height << std::endl;
       std::cout << "Point step: " << encoding_info.point_step << std::endl;
-      std::cout << "Total points: " << (encoding_info.width * encoding_info.height) << std::endl;
-      std::cout << "Total data size: " << (encoding_info.width * encoding_info.height * encoding_info.point_step)
-                << " bytes" << std::endl;
+      const uint64_t total_points = static_cast<uint64_t>(encoding_info.width) * encoding_info.height;
+      std::cout << "Total points: " << total_points << std::endl;
+      std::cout << "Total data size: " << (total_points * encoding_info.point_step) << " bytes" << std::endl;
       std::cout << "Encoding option: " << Cloudini::ToString(encoding_info.encoding_opt) << std::endl;
       std::cout << "Compression option: " << Cloudini::ToString(encoding_info.compression_opt) << std::endl;
       std::cout << "Number of fields: " << encoding_info.fields.size() << std::endl;
-- 
2.43.0


From abbb6f83159393710fb3b6e6deedf6e869cb0f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 65/89] fix: report a metadata.yaml that cannot be written

---
 cloudini_lib/tools/src/cloudini_rosbag_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index d8c1ce1..f3a2684 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -70,6 +70,10 @@ void generateMetadataYaml(
   std::filesystem::path output_metadata = output_dir / "metadata.yaml";
   std::ofstream out(output_metadata);
   out << content;
+  out.close();
+  if (!out) {
+    throw std::runtime_error("Error writing file: " + output_metadata.string());
+  }
   std::cout << "Metadata file saved as: " << output_metadata << std::endl;
 }
 
-- 
2.43.0


From ab41229bb8ef03170432dd457538fef2ef1373dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 66/89] fix: convert only the types of point clouds in
 metadata.yaml

---
 .../tools/src/cloudini_rosbag_converter.cpp        | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
index f3a2684..e891f9f 100644
--- a/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
+++ b/cloudini_lib/tools/src/cloudini_rosbag_converter.cpp
@@ -15,6 +15,7 @@
  */
 
 #include <algorithm>
+#include <cctype>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
@@ -46,7 +47,18 @@ void generateMetadataYaml(
   const std::string new_type =
       encoding ? "point_cloud_interfaces/msg/CompressedPointCloud2" : "sensor_msgs/msg/PointCloud2";
 
-  replaceAll(content, "type: " + old_type, "type: " + new_type);
+  // (the whole name: another type may start with the same characters)
+  const std::string old_line = "type: " + old_type;
+  const std::string new_line = "type: " + new_type;
+  for (size_t pos = 0; (pos = content.find(old_line, pos)) != std::string::npos;) {
+    const size_t end = pos + old_line.size();
+    if (end < content.size() && (std::isalnum(static_cast<unsigned char>(content[end])) || content[end] == '_')) {
+      pos = end;
+      continue;
+    }
+    content.replace(pos, old_line.size(), new_line);
+    pos += new_line.size();
+  }
 
   // Replace .mcap filename references (in relative_file_paths and files sections)
   // Extract the original mcap filename from the "relative_file_paths:" section
-- 
2.43.0


From 1e28abea560ca8183015eed128b8a94484a0ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 67/89] fix: no undefined integer arithmetic in the fallback
 without SSE

---
 .../include/cloudini_lib/intrinsics.hpp       | 42 +++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/intrinsics.hpp b/cloudini_lib/include/cloudini_lib/intrinsics.hpp
index bc74db7..a09ee46 100644
--- a/cloudini_lib/include/cloudini_lib/intrinsics.hpp
+++ b/cloudini_lib/include/cloudini_lib/intrinsics.hpp
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
 
 // --- Architecture Detection & Native Types ---
 
@@ -217,10 +218,10 @@ struct alignas(16) Vector4i {
     return Vector4i(_mm_add_epi32(data.m, other.data.m));
 #else  // Scalar fallback
     return Vector4i(
-        data.v[0] + other.data.v[0],  //
-        data.v[1] + other.data.v[1],  //
-        data.v[2] + other.data.v[2],  //
-        data.v[3] + other.data.v[3]);
+        wrapping_add(data.v[0], other.data.v[0]),  //
+        wrapping_add(data.v[1], other.data.v[1]),  //
+        wrapping_add(data.v[2], other.data.v[2]),  //
+        wrapping_add(data.v[3], other.data.v[3]));
 #endif
   }
 
@@ -229,10 +230,10 @@ struct alignas(16) Vector4i {
     return Vector4i(_mm_sub_epi32(data.m, other.data.m));
 #else  // Scalar fallback
     return Vector4i(
-        data.v[0] - other.data.v[0],  //
-        data.v[1] - other.data.v[1],  //
-        data.v[2] - other.data.v[2],  //
-        data.v[3] - other.data.v[3]);
+        wrapping_sub(data.v[0], other.data.v[0]),  //
+        wrapping_sub(data.v[1], other.data.v[1]),  //
+        wrapping_sub(data.v[2], other.data.v[2]),  //
+        wrapping_sub(data.v[3], other.data.v[3]));
 #endif
   }
 
@@ -278,6 +279,17 @@ struct alignas(16) Vector4i {
     assert(index < 4);
     return data.v[index];
   }
+
+ private:
+#if !defined(ARCH_X86_SSE)
+  // wrap around as the SIMD instructions do (the overflow of signed integers is undefined)
+  static int32_t wrapping_add(int32_t a, int32_t b) {
+    return static_cast<int32_t>(static_cast<uint32_t>(a) + static_cast<uint32_t>(b));
+  }
+  static int32_t wrapping_sub(int32_t a, int32_t b) {
+    return static_cast<int32_t>(static_cast<uint32_t>(a) - static_cast<uint32_t>(b));
+  }
+#endif
 };
 
 //-----------------------------------------------------------------------
@@ -291,11 +303,17 @@ inline Vector4i cast_vector4f_to_vector4i(const Vector4f& float_vec) {
   // using rounding
   return _mm_cvtps_epi32(_mm_round_ps(float_vec.data.m, _MM_FROUND_TO_NEAREST_INT | _MM_FROUND_NO_EXC));
 #else
+  // NaN and values out of range become INT32_MIN, as with SSE (converting them is undefined)
+  auto to_int = [](float value) {
+    const float rounded = std::round(value);
+    return (rounded >= -2147483648.0F && rounded < 2147483648.0F) ? static_cast<int32_t>(rounded)
+                                                                  : std::numeric_limits<int32_t>::min();
+  };
   return Vector4i(
-      static_cast<int32_t>(std::round(float_vec.data.v[0])),  //
-      static_cast<int32_t>(std::round(float_vec.data.v[1])),  //
-      static_cast<int32_t>(std::round(float_vec.data.v[2])),  //
-      static_cast<int32_t>(std::round(float_vec.data.v[3])));
+      to_int(float_vec.data.v[0]),  //
+      to_int(float_vec.data.v[1]),  //
+      to_int(float_vec.data.v[2]),  //
+      to_int(float_vec.data.v[3]));
 #endif
 }
 
-- 
2.43.0


From 1638c55c7b97ceac04efb771f29f61ef36c7868d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:42 +0000
Subject: [PATCH 68/89] fix: refuse sizes that do not fit in size_t instead of
 wrapping around

---
 cloudini_lib/src/cloudini.cpp     |  6 +++---
 cloudini_lib/src/codec_common.cpp |  2 +-
 cloudini_lib/src/codec_common.hpp | 10 ++++++++++
 cloudini_lib/src/v5_codec.cpp     |  4 ++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index d915983..4f70372 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -671,7 +671,7 @@ size_t PointcloudEncoder::encode(ConstBufferView cloud_data, BufferView& output,
   } else {
     const size_t max_per_point = detail::MaxSerializedPointSize(info_);
     const size_t stage_capacity =
-        detail::kPointsPerChunk * std::max<size_t>(info_.point_step, max_per_point);
+        detail::CheckedProduct(detail::kPointsPerChunk, std::max<size_t>(info_.point_step, max_per_point));
     ensureScratchBuffer(buffer_, buffer_capacity_, stage_capacity);
     if (info_.compression_opt != CompressionOption::NONE && info_.use_threads) {
       ensureScratchBuffer(buffer_compressing_, buffer_compressing_capacity_, stage_capacity);
@@ -719,7 +719,7 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
   }
 
   if (info.version >= 3) {
-    size_t points_remaining = static_cast<size_t>(info.width) * static_cast<size_t>(info.height);
+    size_t points_remaining = detail::CheckedProduct(info.width, info.height);
     while (!compressed_data.empty()) {
       if (points_remaining == 0) {
         throw std::runtime_error("Encoded data contains more chunks than declared points");
@@ -740,7 +740,7 @@ void PointcloudDecoder::decode(const EncodingInfo& info, ConstBufferView compres
     }
   } else {
     // a single chunk that contains all the points
-    const size_t declared_size = static_cast<size_t>(info.width) * info.height * info.point_step;
+    const size_t declared_size = detail::CheckedProduct(detail::CheckedProduct(info.width, info.height), info.point_step);
     const size_t output_size = output.size();
     decodeChunk(info, compressed_data, output, /*expected_points=*/0);
     if (output_size - output.size() != declared_size) {
diff --git a/cloudini_lib/src/codec_common.cpp b/cloudini_lib/src/codec_common.cpp
index dd12a11..1260bd2 100644
--- a/cloudini_lib/src/codec_common.cpp
+++ b/cloudini_lib/src/codec_common.cpp
@@ -68,7 +68,7 @@ size_t MaxSerializedPointSize(const EncodingInfo& info) {
 }
 
 size_t MaxStage1ChunkSize(const EncodingInfo& info, size_t points_in_chunk) {
-  size_t max_size = points_in_chunk * MaxSerializedPointSize(info);
+  size_t max_size = CheckedProduct(points_in_chunk, MaxSerializedPointSize(info));
   if (UsesV5Codec(info)) {
     // V5 adaptive integer sections add mode/header bytes. The mode is committed on the
     // first points only: later values may cost one more byte than the worst-case varint
diff --git a/cloudini_lib/src/codec_common.hpp b/cloudini_lib/src/codec_common.hpp
index ba14936..932fccd 100644
--- a/cloudini_lib/src/codec_common.hpp
+++ b/cloudini_lib/src/codec_common.hpp
@@ -16,7 +16,9 @@
 
 #pragma once
 
+#include <limits>
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 #include "cloudini_lib/cloudini.hpp"
@@ -27,6 +29,14 @@ namespace Cloudini::detail {
 
 constexpr size_t kPointsPerChunk = 32 * 1024;
 
+// Product of two sizes. Throws instead of wrapping around: size_t has only 32 bits on some platforms (e.g. WebAssembly).
+inline size_t CheckedProduct(size_t a, size_t b) {
+  if (b != 0 && a > std::numeric_limits<size_t>::max() / b) {
+    throw std::runtime_error("The point cloud is too large");
+  }
+  return a * b;
+}
+
 size_t MaxSerializedFieldSize(const PointField& field, EncodingOptions encoding_opt);
 size_t MaxSerializedPointSize(const EncodingInfo& info);
 // Upper bound of the first stage output for a chunk with this number of points.
diff --git a/cloudini_lib/src/v5_codec.cpp b/cloudini_lib/src/v5_codec.cpp
index eabac2d..502a477 100644
--- a/cloudini_lib/src/v5_codec.cpp
+++ b/cloudini_lib/src/v5_codec.cpp
@@ -891,7 +891,7 @@ bool UsesV5Codec(const EncodingInfo& info) {
 
 size_t V5StageBufferSize(const EncodingInfo& info, size_t points_per_chunk) {
   const size_t max_per_point = MaxSerializedPointSize(info);
-  return points_per_chunk * (std::max<size_t>(info.point_step, max_per_point) + 64u) +
+  return CheckedProduct(points_per_chunk, std::max<size_t>(info.point_step, max_per_point) + 64u) +
          info.fields.size() * 64u + 1024u;
 }
 
@@ -985,7 +985,7 @@ void DecodeV5Stage1Chunk(
   if (expected_points == 0) {
     throw std::runtime_error("V5 chunks require an expected point count");
   }
-  const size_t output_bytes = expected_points * info.point_step;
+  const size_t output_bytes = CheckedProduct(expected_points, info.point_step);
   if (output_buffer.size() < output_bytes) {
     throw std::runtime_error("Output buffer is too small to hold the decoded V5 data");
   }
-- 
2.43.0


From e0b59612dea7163e15b984880933dff0c6fdafa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 69/89] fix: no wrap-around of the advertised maximum size

---
 cloudini_lib/src/cloudini.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 4f70372..4736531 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -328,25 +328,33 @@ size_t MaxCompressedSize(const EncodingInfo& info, size_t points_count, bool inc
 
   size_t total_size = include_header ? (kMagicHeaderLength + 2 + 1 + EncodingInfoToYAML(info).size() + 1) : 0;
 
+  // throw instead of wrapping around: size_t has only 32 bits on some platforms (e.g. WebAssembly)
+  auto add = [&total_size](size_t size) {
+    if (size > std::numeric_limits<size_t>::max() - total_size) {
+      throw std::runtime_error("The point cloud is too large");
+    }
+    total_size += size;
+  };
+
   size_t points_left = points_count;
   for (size_t chunk_idx = 0; chunk_idx < chunks_count; ++chunk_idx) {
     const size_t points_in_chunk = std::min(points_left, chunk_points);
     points_left -= points_in_chunk;
     const size_t max_chunk_input_size = detail::MaxStage1ChunkSize(info, points_in_chunk);
 
-    total_size += sizeof(uint32_t);  // chunk size prefix
+    add(sizeof(uint32_t));  // chunk size prefix
     switch (info.compression_opt) {
       case CompressionOption::NONE:
-        total_size += max_chunk_input_size;
+        add(max_chunk_input_size);
         break;
       case CompressionOption::LZ4:
         if (max_chunk_input_size > static_cast<size_t>(std::numeric_limits<int>::max())) {
           throw std::runtime_error("Chunk size too large for LZ4");
         }
-        total_size += static_cast<size_t>(LZ4_compressBound(static_cast<int>(max_chunk_input_size)));
+        add(static_cast<size_t>(LZ4_compressBound(static_cast<int>(max_chunk_input_size))));
         break;
       case CompressionOption::ZSTD:
-        total_size += ZSTD_compressBound(max_chunk_input_size);
+        add(ZSTD_compressBound(max_chunk_input_size));
         break;
       default:
         throw std::runtime_error("Unsupported compression option in MaxCompressedSize");
-- 
2.43.0


From bce9ab5915354b61716705628dcf737cd7bb6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:43 +0000
Subject: [PATCH 70/89] fix: count the points of a message in 64 bits

---
 cloudini_lib/src/ros_msg_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/src/ros_msg_utils.cpp b/cloudini_lib/src/ros_msg_utils.cpp
index e67bdf8..72c1b7a 100644
--- a/cloudini_lib/src/ros_msg_utils.cpp
+++ b/cloudini_lib/src/ros_msg_utils.cpp
@@ -134,7 +134,7 @@ Cloudini::EncodingInfo toEncodingInfo(const RosPointCloud2& pc_info) {
 
 void convertCompressedCloudToPointCloud2(const RosPointCloud2& pc_info, std::vector<uint8_t>& pc2_dds_msg) {
   // We need to reserve enough space in the output buffer
-  const size_t points_count = static_cast<size_t>(pc_info.width) * pc_info.height;
+  const uint64_t points_count = static_cast<uint64_t>(pc_info.width) * pc_info.height;
   if (pc_info.point_step != 0 && points_count > std::numeric_limits<uint32_t>::max() / pc_info.point_step) {
     throw std::runtime_error("convertCompressedCloudToPointCloud2: the decoded cloud is too large for a message");
   }
@@ -197,7 +197,7 @@ void convertPointCloud2ToCompressedCloud(
   // which could be maliciously large and cause excessive allocation.
   const size_t points_count = pc_info.data.size() / encoding_info.point_step;
   if (pc_info.data.size() % encoding_info.point_step != 0 ||
-      points_count != static_cast<size_t>(encoding_info.width) * encoding_info.height) {
+      points_count != static_cast<uint64_t>(encoding_info.width) * encoding_info.height) {
     throw std::runtime_error("convertPointCloud2ToCompressedCloud: data size does not match the declared dimensions");
   }
   const size_t max_compressed_size = Cloudini::MaxCompressedSize(encoding_info, points_count, true);
-- 
2.43.0


From dc02ad063538754918770362d61d5a4380e151be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 71/89] fix: no decoding into an output that is too small in
 the Foxglove converter

---
 cloudini_foxglove/src/PointCloudConverter.tsx      | 10 ++++++----
 cloudini_foxglove/src/cloudini_wasm_single.d.ts    |  1 +
 cloudini_lib/include/cloudini_lib/wasm_functions.h |  4 ++++
 cloudini_lib/src/wasm_functions.cpp                | 11 +++++++++++
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/cloudini_foxglove/src/PointCloudConverter.tsx b/cloudini_foxglove/src/PointCloudConverter.tsx
index 0f848cd..cc9616b 100644
--- a/cloudini_foxglove/src/PointCloudConverter.tsx
+++ b/cloudini_foxglove/src/PointCloudConverter.tsx
@@ -69,6 +69,12 @@ export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud =
 
     const decompressedSize = cloud.height * cloud.width * cloud.point_step;
 
+    // The output buffer must have room for the cloud that the compressed data contains
+    const encodedSize = wasmModule._cldn_GetDecodedDataSize(inputDataPtr, bufferSize);
+    if (encodedSize !== decompressedSize) {
+      throw new Error(`Decompressed size mismatch: expected ${decompressedSize}, got ${encodedSize}`);
+    }
+
     outputDataPtr = wasmModule._malloc(decompressedSize);
     if (!outputDataPtr) {
       throw new Error('Failed to allocate memory for output data');
@@ -79,10 +85,6 @@ export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud =
       throw new Error('Decompression failed - function returned 0');
     }
 
-    if (actualSize !== decompressedSize) {
-      console.warn(`Decompressed size mismatch: expected ${decompressedSize}, got ${actualSize}`);
-    }
-
     // Copy the result to a JavaScript array
     const decodedData = new Uint8Array(wasmModule.HEAPU8.buffer, outputDataPtr, actualSize);
     // Create a copy to ensure data persists after memory is freed
diff --git a/cloudini_foxglove/src/cloudini_wasm_single.d.ts b/cloudini_foxglove/src/cloudini_wasm_single.d.ts
index 45dd873..424af64 100644
--- a/cloudini_foxglove/src/cloudini_wasm_single.d.ts
+++ b/cloudini_foxglove/src/cloudini_wasm_single.d.ts
@@ -23,6 +23,7 @@ export interface CloudiniWasmModule extends EmscriptenModule {
   _cldn_ComputeCompressedSize(inputPtr: number, inputSize: number, resolution: number): number;
   _cldn_DecodeCompressedData(inputPtr: number, inputSize: number, outputPtr: number): number;
   _cldn_DecodeCompressedMessage(inputPtr: number, inputSize: number, outputPtr: number): number;
+  _cldn_GetDecodedDataSize(inputPtr: number, inputSize: number): number;
   _cldn_GetDecompressedSize(inputPtr: number, inputSize: number): number;
 }
 
diff --git a/cloudini_lib/include/cloudini_lib/wasm_functions.h b/cloudini_lib/include/cloudini_lib/wasm_functions.h
index f01eda3..768ffef 100644
--- a/cloudini_lib/include/cloudini_lib/wasm_functions.h
+++ b/cloudini_lib/include/cloudini_lib/wasm_functions.h
@@ -55,6 +55,10 @@ WASM_EXPORT uint32_t cldn_GetDecompressedSize(uintptr_t encoded_msg_ptr, uint32_
 WASM_EXPORT uint32_t cldn_ConvertCompressedMsgToPointCloud2Msg(
     uintptr_t compressed_msg_ptr, uint32_t encoded_data_size, uintptr_t output_msg_ptr);
 
+// Preview the size of the output of cldn_DecodeCompressedData, needed to allocate memory in advance. It comes from the
+// header of the compressed cloudini buffer; no actual decompression is performed. Returns 0 on failure.
+WASM_EXPORT uint32_t cldn_GetDecodedDataSize(uintptr_t encoded_data_ptr, uint32_t encoded_data_size);
+
 /**
  * @brief Given compressed cloudini buffer, perform decoding.
  * The compressed data will come from the field "point_cloud_interfaces::CompressedPointCloud2::compressed_data",
diff --git a/cloudini_lib/src/wasm_functions.cpp b/cloudini_lib/src/wasm_functions.cpp
index d62dd6e..bb564b8 100644
--- a/cloudini_lib/src/wasm_functions.cpp
+++ b/cloudini_lib/src/wasm_functions.cpp
@@ -168,6 +168,17 @@ uint32_t cldn_DecodeCompressedMessage(uintptr_t encoded_dds_ptr, uint32_t encode
   }
 }
 
+uint32_t cldn_GetDecodedDataSize(uintptr_t encoded_data_ptr, uint32_t encoded_data_size) {
+  try {
+    Cloudini::ConstBufferView encoded_view(reinterpret_cast<const uint8_t*>(encoded_data_ptr), encoded_data_size);
+    const Cloudini::EncodingInfo info = Cloudini::DecodeHeader(encoded_view);
+    return static_cast<uint32_t>(cloudSize(info.width, info.height, info.point_step));
+  } catch (const std::exception& ex) {
+    EM_ASM({ console.error('Failed to decode header:', UTF8ToString($0)); }, ex.what());
+    return 0;
+  }
+}
+
 uint32_t cldn_DecodeCompressedData(uintptr_t encoded_data_ptr, uint32_t encoded_data_size, uintptr_t output_data) {
   const uint8_t* encoded_data = reinterpret_cast<const uint8_t*>(encoded_data_ptr);
   Cloudini::ConstBufferView encoded_view(encoded_data, encoded_data_size);
-- 
2.43.0


From 526c4a1fcadfb8e7c8667267bde900bd7d868860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 72/89] fix: load the module of the Foxglove converter again
 after a failure

---
 cloudini_foxglove/src/PointCloudConverter.tsx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cloudini_foxglove/src/PointCloudConverter.tsx b/cloudini_foxglove/src/PointCloudConverter.tsx
index cc9616b..40bf466 100644
--- a/cloudini_foxglove/src/PointCloudConverter.tsx
+++ b/cloudini_foxglove/src/PointCloudConverter.tsx
@@ -10,13 +10,17 @@ export const loadCloudiniWasm = async () => {
     wasmLoadingPromise = CloudiniModule().then((module: CloudiniWasmModule) => {
       wasmModule = module;
     });
+    // After a failure, the next call must be able to try again
+    wasmLoadingPromise.catch(() => {
+      wasmLoadingPromise = null;
+    });
   }
   return wasmLoadingPromise;
 };
 
 export const convertPointCloudWasm = (cloud: CompressedPointCloud): PointCloud => {
   if (!wasmModule) {
-    loadCloudiniWasm();
+    loadCloudiniWasm().catch(console.error);
     throw new Error('Cloudini WASM module is still loading. Please try again.');
   }
 
-- 
2.43.0


From 36d7b9ec54ec3021537ae93f2185b8053caeb852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 73/89] fix: no counting of other channels of the same topic in
 the web page

---
 cloudini_web/main.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 7003faf..11fca03 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -155,6 +155,10 @@ async function analyzeFile(reader, file) {
                 endTime: reader.end,
                 topics: [channel.topic]
             })) {
+                // Other channels may publish on the same topic
+                if (message.channelId !== channel.channelId) {
+                    continue;
+                }
                 // We already know this channel has the target schema
                 messageCount++;
                 const dataSize = message.data.length;
-- 
2.43.0


From d30b43c79b5937e42b2ac3115633f86f0f3a3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 74/89] fix: no counting of messages that were not compressed
 in the sizes of the web page

---
 cloudini_web/main.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 11fca03..6024824 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -162,7 +162,6 @@ async function analyzeFile(reader, file) {
                 // We already know this channel has the target schema
                 messageCount++;
                 const dataSize = message.data.length;
-                totalSize += dataSize;
 
                 // Call WASM function
                 try {
@@ -201,7 +200,11 @@ async function analyzeFile(reader, file) {
                         );
                     }
 
-                    totalCompressedSize += compressedSize;
+                    // The function returns 0 on failure; compare only what was compressed
+                    if (compressedSize > 0) {
+                        totalSize += dataSize;
+                        totalCompressedSize += compressedSize;
+                    }
                 } catch (error) {
                     console.error('Error calling WASM function:', error);
                     console.error('Data size:', dataSize);
-- 
2.43.0


From 5fd63d631021637e104e86deeae4262d53060779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 75/89] fix: no use of a failed allocation and no leak in the
 web page

---
 cloudini_web/main.js | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index 6024824..d6669b6 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -184,12 +184,18 @@ async function analyzeFile(reader, file) {
                     if (wasmModule._malloc && wasmModule._free && wasmModule.HEAPU8) {
                         // Direct memory approach (Option 1)
                         const dataPtr = wasmModule._malloc(dataSize);
-                        const wasmView = new Uint8Array(wasmModule.HEAPU8.buffer, dataPtr, dataSize);
-                        wasmView.set(dataView);
-
-                        // Use the correct WASM function name with resolution parameter (1mm = 0.001)
-                        compressedSize = wasmModule._cldn_ComputeCompressedSize(dataPtr, dataSize, 0.001);
-                        wasmModule._free(dataPtr);
+                        if (dataPtr === 0) {
+                            throw new Error('Out of WASM memory');
+                        }
+                        try {
+                            const wasmView = new Uint8Array(wasmModule.HEAPU8.buffer, dataPtr, dataSize);
+                            wasmView.set(dataView);
+
+                            // Use the correct WASM function name with resolution parameter (1mm = 0.001)
+                            compressedSize = wasmModule._cldn_ComputeCompressedSize(dataPtr, dataSize, 0.001);
+                        } finally {
+                            wasmModule._free(dataPtr);
+                        }
                     } else {
                         // Fallback to ccall approach with resolution parameter
                         compressedSize = wasmModule.ccall(
-- 
2.43.0


From 655ea168ec15f2ce7b406f1515c2ca8f67bb8616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 76/89] fix: no HTML from names and messages of a file in the
 web page

---
 cloudini_web/main.js | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/cloudini_web/main.js b/cloudini_web/main.js
index d6669b6..d2cc757 100644
--- a/cloudini_web/main.js
+++ b/cloudini_web/main.js
@@ -6,6 +6,16 @@ const fileInput = document.getElementById('fileInput');
 const status = document.getElementById('status');
 const results = document.getElementById('results');
 
+// Text taken from a file must not be interpreted as HTML
+function escapeHtml(text) {
+    return String(text)
+        .replace(/&/g, '&amp;')
+        .replace(/</g, '&lt;')
+        .replace(/>/g, '&gt;')
+        .replace(/"/g, '&quot;')
+        .replace(/'/g, '&#39;');
+}
+
 dropZone.addEventListener('dragover', (e) => {
     e.preventDefault();
     if (!dropZone.classList.contains('disabled')) {
@@ -77,7 +87,7 @@ async function handleFile(file) {
 
     } catch (error) {
         console.error('Error:', error);
-        status.innerHTML = 'Error reading MCAP file: ' + error.message;
+        status.innerHTML = 'Error reading MCAP file: ' + escapeHtml(error.message);
     } finally {
         enableDropZone();
     }
@@ -116,7 +126,7 @@ async function analyzeFile(reader, file) {
 
     } catch (error) {
         console.error('Failed to load WASM module:', error);
-        status.innerHTML = 'Error loading WASM module: ' + error.message;
+        status.innerHTML = 'Error loading WASM module: ' + escapeHtml(error.message);
         return;
     }
 
@@ -228,7 +238,7 @@ async function analyzeFile(reader, file) {
             });
         }
 
-        status.innerHTML = `File: ${file.name} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
+        status.innerHTML = `File: ${escapeHtml(file.name)} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
 
         // Calculate totals across all channels
         const grandTotalSize = channelResults.reduce((sum, ch) => sum + ch.totalSize, 0);
@@ -245,10 +255,10 @@ async function analyzeFile(reader, file) {
                         `<div class="channel-card">
                             <div class="channel-content">
                                 <div>
-                                    <div class="channel-topic">${ch.topic}</div>
+                                    <div class="channel-topic">${escapeHtml(ch.topic)}</div>
                                     <div class="channel-details">
-                                        <div><strong>Schema:</strong> ${ch.schema}</div>
-                                        <div><strong>Encoding:</strong> ${ch.encoding}</div>
+                                        <div><strong>Schema:</strong> ${escapeHtml(ch.schema)}</div>
+                                        <div><strong>Encoding:</strong> ${escapeHtml(ch.encoding)}</div>
                                         <div><strong>Channel ID:</strong> ${ch.channelId}</div>
                                         <div><strong>Messages:</strong> <span class="message-count">${ch.messageCount.toLocaleString()}</span></div>
                                     </div>
@@ -282,7 +292,7 @@ async function analyzeFile(reader, file) {
             </div>
             `;
     } else {
-        status.innerHTML = `File: ${file.name} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
+        status.innerHTML = `File: ${escapeHtml(file.name)} | Channels: ${totalChannels} | Schemas: ${allSchemas.size}`;
         results.innerHTML = `
             <div class="no-results">
                 <div class="no-results-card">
@@ -295,7 +305,7 @@ async function analyzeFile(reader, file) {
                     <h4 class="schemas-title">📋 Available Schemas in this file:</h4>
                     <div class="schemas-list">
                         ${Array.from(allSchemas).sort().map(schema =>
-                            `<span class="schema-tag">${schema}</span>`
+                            `<span class="schema-tag">${escapeHtml(schema)}</span>`
                         ).join('')}
                     </div>
                 </div>
-- 
2.43.0


From abde2df57a82c6f9e9dca82b19b1f1be31fc893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:12 +0000
Subject: [PATCH 77/89] fix: no binary header for names and field lists that it
 cannot hold

---
 cloudini_lib/include/cloudini_lib/encoding_utils.hpp | 3 +++
 cloudini_lib/src/cloudini.cpp                        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
index 3885558..924503d 100644
--- a/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
+++ b/cloudini_lib/include/cloudini_lib/encoding_utils.hpp
@@ -43,6 +43,9 @@ inline void encode(const T& val, BufferView& buff) {
 // specialization for std::string
 template <>
 inline void encode(const std::string& str, BufferView& buff) {
+  if (str.size() > std::numeric_limits<uint16_t>::max()) {
+    throw std::runtime_error("encode(string): the string is too long");
+  }
   uint16_t len = static_cast<uint16_t>(str.size());
   encode(len, buff);
   if (buff.size() < len) {
diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 4736531..55de5a4 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -390,6 +390,9 @@ void EncodeHeader(const EncodingInfo& header, std::vector<uint8_t>& output, Head
     encode('\0', output_buffer);  // null terminator
   } else {
     // Binary encoding
+    if (header.fields.size() > std::numeric_limits<uint16_t>::max()) {
+      throw std::runtime_error("Too many fields for a binary header");
+    }
     output.resize(ComputeHeaderSize(header.fields));
     BufferView output_buffer(output.data(), output.size());
     write_magic(output_buffer);
-- 
2.43.0


From 31f7b46197e6f9f85c9fbd3c0faa7f08932829ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:44 +0000
Subject: [PATCH 78/89] fix: the encoder refuses versions and encodings that it
 can not write

---
 cloudini_lib/src/cloudini.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index 55de5a4..bd183e5 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -507,6 +507,13 @@ EncodingInfo DecodeHeader(ConstBufferView& input) {
 }
 
 PointcloudEncoder::PointcloudEncoder(const EncodingInfo& info) : info_(info) {
+  // version 2 can be read, but not written: its payload is not divided in chunks
+  if (info_.version < 3 || info_.version > kEncodingVersion) {
+    throw std::runtime_error("Unsupported encoding version: " + std::to_string(info_.version));
+  }
+  if (info_.encoding_opt > EncodingOptions::LOSSLESS) {
+    throw std::runtime_error("Unsupported encoding option");
+  }
   EncodeHeader(info_, header_);
 
   if (!detail::UsesV5Codec(info_)) {
-- 
2.43.0


From 6f1eab6ae0b96f67ca489ec853bb17c8fd2749c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:57 +0000
Subject: [PATCH 79/89] fix: the encoder refuses resolutions that are infinite
 or too small to be used

---
 cloudini_lib/include/cloudini_lib/field_encoder.hpp | 3 +++
 cloudini_lib/src/field_encoder.cpp                  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cloudini_lib/include/cloudini_lib/field_encoder.hpp b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
index 1e2521b..1c43368 100644
--- a/cloudini_lib/include/cloudini_lib/field_encoder.hpp
+++ b/cloudini_lib/include/cloudini_lib/field_encoder.hpp
@@ -104,6 +104,9 @@ class FieldEncoderFloat_Lossy : public FieldEncoder {
     if (!(resolution > 0.0)) {
       throw std::runtime_error("FieldEncoder(Float/Lossy) requires a resolution with value > 0.0");
     }
+    if (!std::isfinite(resolution) || !std::isfinite(multiplier_)) {
+      throw std::runtime_error("FieldEncoder(Float/Lossy): the resolution is out of range");
+    }
   }
 
   size_t encode(const ConstBufferView& point_view, BufferView& output) override;
diff --git a/cloudini_lib/src/field_encoder.cpp b/cloudini_lib/src/field_encoder.cpp
index 5e54051..e5f2c34 100644
--- a/cloudini_lib/src/field_encoder.cpp
+++ b/cloudini_lib/src/field_encoder.cpp
@@ -35,6 +35,9 @@ FieldEncoderFloatN_Lossy::FieldEncoderFloatN_Lossy(const std::vector<FieldData>&
       throw std::runtime_error("FieldEncoderFloatN_Lossy requires a resolution with value > 0.0");
     }
     multiplier_[i] = 1.0F / (field_data[i].resolution);
+    if (!std::isfinite(field_data[i].resolution) || !std::isfinite(multiplier_[i])) {
+      throw std::runtime_error("FieldEncoderFloatN_Lossy: the resolution is out of range");
+    }
     offset_[i] = field_data[i].offset;
   }
 }
-- 
2.43.0


From f636fcd2410d45586a0ba9c83d32d3f4dd214bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:16 +0000
Subject: [PATCH 80/89] fix: decode_mcap.py reads recordings without a summary
 or statistics

---
 cloudini_py/decode_mcap.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cloudini_py/decode_mcap.py b/cloudini_py/decode_mcap.py
index 63a2c1c..81e4314 100644
--- a/cloudini_py/decode_mcap.py
+++ b/cloudini_py/decode_mcap.py
@@ -31,12 +31,17 @@ def decode_mcap_file(mcap_path: str, wasm_path: str, max_messages: int = None):
         # Print summary
         summary = reader.get_summary()
         print(f"\nMCAP Summary:")
-        print(f"  Duration: {summary.statistics.message_start_time / 1e9:.2f}s to {summary.statistics.message_end_time / 1e9:.2f}s")
-        print(f"  Message count: {summary.statistics.message_count}")
-        print(f"  Channels: {len(summary.channels)}")
-
-        for channel_id, channel in summary.channels.items():
-            print(f"    Channel {channel_id}: {channel.topic} ({channel.message_encoding})")
+        # The summary and its statistics are optional (e.g. the recording was interrupted)
+        if summary is None:
+            print("  not available")
+        else:
+            if summary.statistics is not None:
+                print(f"  Duration: {summary.statistics.message_start_time / 1e9:.2f}s to {summary.statistics.message_end_time / 1e9:.2f}s")
+                print(f"  Message count: {summary.statistics.message_count}")
+            print(f"  Channels: {len(summary.channels)}")
+
+            for channel_id, channel in summary.channels.items():
+                print(f"    Channel {channel_id}: {channel.topic} ({channel.message_encoding})")
 
         # Process messages
         msg_count = 0
-- 
2.43.0


From d932496ed47a3a7f6810ee38495f1774008e5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 81/89] fix: decode_mcap.py decodes no message when the limit
 is zero

---
 cloudini_py/decode_mcap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudini_py/decode_mcap.py b/cloudini_py/decode_mcap.py
index 81e4314..08de50d 100644
--- a/cloudini_py/decode_mcap.py
+++ b/cloudini_py/decode_mcap.py
@@ -52,6 +52,10 @@ def decode_mcap_file(mcap_path: str, wasm_path: str, max_messages: int = None):
             is_compressed = (schema and 'CompressedPointCloud2' in schema.name)
 
             if is_compressed:
+                if max_messages is not None and msg_count >= max_messages:
+                    print(f"\nReached max messages limit ({max_messages})")
+                    break
+
                 msg_count += 1
 
                 print(f"\n--- Message {msg_count} ---")
@@ -81,10 +85,6 @@ def decode_mcap_file(mcap_path: str, wasm_path: str, max_messages: int = None):
                     import traceback
                     traceback.print_exc()
 
-                if max_messages and msg_count >= max_messages:
-                    print(f"\nReached max messages limit ({max_messages})")
-                    break
-
         print(f"\n=== Summary ===")
         print(f"Messages parsed: {msg_count}")
 
-- 
2.43.0


From f7a73747e3afab504327f6190c10490c10bb718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 82/89] fix: ReadEncodingInfoFromPCD accepts tabs and the
 keyword COLUMNS, like PCL

---
 cloudini_lib/src/pcl_conversion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudini_lib/src/pcl_conversion.cpp b/cloudini_lib/src/pcl_conversion.cpp
index 6eb5f65..e16cac2 100644
--- a/cloudini_lib/src/pcl_conversion.cpp
+++ b/cloudini_lib/src/pcl_conversion.cpp
@@ -18,6 +18,7 @@
 
 #include <pcl/io/pcd_io.h>
 
+#include <algorithm>
 #include <sstream>
 
 namespace Cloudini {
@@ -52,12 +53,14 @@ std::map<std::string, FieldType> ReadEncodingInfoFromPCD(std::istream& stream) {
     line = line.substr(0, line.find('\r'));  // Remove carriage return if present
     line = line.substr(0, line.find('\n'));  // Remove newline if present
 
+    std::replace(line.begin(), line.end(), '\t', ' ');  // PCL accepts tabs as separators, too
+
     auto split_line = splitString(line);
     if (split_line.empty()) {
       continue;
     }
     const auto& line_key = split_line[0];
-    if (line_key == "FIELDS") {
+    if (line_key == "FIELDS" || line_key == "COLUMNS") {  // PCL accepts both names
       fields_name.assign(split_line.begin() + 1, split_line.end());
     } else if (line_key == "SIZE") {
       fields_size.assign(split_line.begin() + 1, split_line.end());
-- 
2.43.0


From d2076f1ac43813050d7f24ddbc068dd5d166e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 83/89] fix: the PCD converter doesn't overwrite a file without
 an answer

---
 cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index 6f757d8..ecec4ab 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -120,7 +120,7 @@ int main(int argc, char** argv) {
     if (std::filesystem::exists(output_file) && !auto_overwrite) {
       std::cout << "Output file already exists: " << output_file << std::endl;
       std::cout << "Do you want to overwrite it? (y/n): ";
-      char response;
+      char response = 'n';  // also when the input ends without an answer
       std::cin >> response;
       if (response != 'y' && response != 'Y') {
         std::cout << "Skipping file: " << input_file << std::endl;
-- 
2.43.0


From 9a7c52d2c493def9eaeafdf1846493fac15d6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:46 +0000
Subject: [PATCH 84/89] fix: the PCD converter doesn't write onto its input
 through a link

---
 cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
index ecec4ab..14fd9ee 100644
--- a/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
+++ b/cloudini_lib/tools/src/pcd_to_cloudini_converter.cpp
@@ -116,6 +116,13 @@ int main(int argc, char** argv) {
       return false;
     }
 
+    // The output may be a link to the input
+    std::error_code same_file_error;
+    if (std::filesystem::equivalent(input_file, output_file, same_file_error)) {
+      std::cerr << "Error: The output can't be the input file: " << input_file << std::endl;
+      return false;
+    }
+
     // Check if output file exists and handle overwrite
     if (std::filesystem::exists(output_file) && !auto_overwrite) {
       std::cout << "Output file already exists: " << output_file << std::endl;
-- 
2.43.0


From cf3a98ab07af21581cac2616b86f151ed20f49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:18 +0000
Subject: [PATCH 85/89] fix: the text header doesn't depend on the locale of
 the application

---
 cloudini_lib/include/cloudini_lib/yaml_parser.hpp | 2 ++
 cloudini_lib/src/cloudini.cpp                     | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
index 6abbe20..17cec11 100644
--- a/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
+++ b/cloudini_lib/include/cloudini_lib/yaml_parser.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cctype>
+#include <locale>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -100,6 +101,7 @@ class Node {
   template <typename T>
   static T parseScalar(const std::string& str) {
     std::istringstream iss(str);
+    iss.imbue(std::locale::classic());  // numbers don't depend on the locale of the application
     T value;
     iss >> value;
     if (iss.fail()) {
diff --git a/cloudini_lib/src/cloudini.cpp b/cloudini_lib/src/cloudini.cpp
index bd183e5..3720929 100644
--- a/cloudini_lib/src/cloudini.cpp
+++ b/cloudini_lib/src/cloudini.cpp
@@ -22,6 +22,7 @@
 #include <cstdio>
 #include <cstring>
 #include <limits>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 
@@ -227,6 +228,8 @@ std::string unquoteName(const std::string& text) {
 
 std::string EncodingInfoToYAML(const EncodingInfo& info) {
   std::ostringstream yaml;
+  // the header doesn't depend on the locale of the application
+  yaml.imbue(std::locale::classic());
   // without this, the stream hides allocation failures and the output is truncated
   yaml.exceptions(std::ios::badbit | std::ios::failbit);
   yaml << "version: " << static_cast<int>(info.version) << "\n";
@@ -290,9 +293,8 @@ EncodingInfo EncodingInfoFromYAML(std::string_view yaml) {
       field.offset = field_node["offset"].as<uint32_t>();
       field.type = FieldTypeFromString(field_node["type"].as<std::string_view>());
 
-      std::string res_str = field_node["resolution"].as<std::string>();
-      if (res_str != "null") {
-        field.resolution = std::stof(res_str);
+      if (field_node["resolution"].as<std::string_view>() != "null") {
+        field.resolution = field_node["resolution"].as<float>();
       }
       info.fields.push_back(field);
     }
-- 
2.43.0


From 9c437c19692c76ad2ab4a6c217e30c3f5a52a278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:15 +0000
Subject: [PATCH 86/89] fix: the codec benchmark tells about problems reading
 the recording

---
 cloudini_lib/tools/src/mcap_codec_benchmark.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
index bac1371..13b0e86 100644
--- a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
+++ b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
@@ -345,7 +345,9 @@ int main(int argc, char** argv) {
   if (explain_mode) {
     std::map<std::string, bool> explained;
     mcap::ReadMessageOptions ropts;
-    mcap::ProblemCallback prob = [](const mcap::Status&) {};
+    mcap::ProblemCallback prob = [](const mcap::Status& problem_status) {
+      std::cerr << "Problem reading the MCAP file: " << problem_status.message << "\n";
+    };
     for (const auto& msg : reader.readMessages(prob, ropts)) {
       auto chan_it = pc_channels.find(msg.channel->id);
       if (chan_it == pc_channels.end()) continue;
@@ -382,7 +384,9 @@ int main(int argc, char** argv) {
   std::vector<DecodeSample> decode_samples;
 
   mcap::ReadMessageOptions reader_options;
-  mcap::ProblemCallback problem = [](const mcap::Status&) {};
+  mcap::ProblemCallback problem = [](const mcap::Status& problem_status) {
+    std::cerr << "Problem reading the MCAP file: " << problem_status.message << "\n";
+  };
   uint64_t total_messages_processed = 0;
 
   for (const auto& msg : reader.readMessages(problem, reader_options)) {
-- 
2.43.0


From 3abaf538c88b5bcac4ddf943d53fbe45dad7a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:16 +0000
Subject: [PATCH 87/89] fix: the codec benchmark's ratio leaves out the
 messages that could not be encoded

---
 cloudini_lib/tools/src/mcap_codec_benchmark.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
index 13b0e86..bc1dca5 100644
--- a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
+++ b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
@@ -165,7 +165,7 @@ void printTable(const std::string& title, const TopicStats& st, bool show_zstd)
   for (int m = 0; m < kModeCount; ++m) {
     const auto& ms = st.per_mode[m];
     std::cout << "  " << std::left << std::setw(10) << kModeNames[m] << std::right << std::setw(12)
-              << fmtMiB(ms.out_bytes) << std::setw(10) << fmtRatio(ms.out_bytes, st.in_bytes)
+              << fmtMiB(ms.out_bytes) << std::setw(10) << fmtRatio(ms.out_bytes, ms.enc_input_bytes)
               << std::setw(12) << fmtMBps(ms.enc_input_bytes, ms.enc_ns) << std::setw(12)
               << fmtMBps(ms.dec_input_bytes, ms.dec_ns) << "\n";
   }
-- 
2.43.0


From a07dec186159efc72f14c647fe0c4667b28ac324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:16 +0000
Subject: [PATCH 88/89] fix: the codec benchmark explains clouds without a
 point size without dividing by zero

---
 cloudini_lib/tools/src/mcap_codec_benchmark.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
index bc1dca5..114e083 100644
--- a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
+++ b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
@@ -363,6 +363,10 @@ int main(int argc, char** argv) {
         std::cerr << "  [warn] " << topic << " parse failed: " << e.what() << "\n";
         continue;
       }
+      if (pc_info.point_step == 0) {
+        std::cerr << "  [warn] " << topic << ": the size of a point is zero\n";
+        continue;
+      }
       cloudini_ros::applyResolutionProfile({}, pc_info.fields, default_resolution);
       Cloudini::EncodingInfo base = cloudini_ros::toEncodingInfo(pc_info);
       explainOneMessage(topic, pc_info, base);
-- 
2.43.0


From 46381c834230a60e66b77db606a3363ef74a3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:16 +0000
Subject: [PATCH 89/89] fix: the codec benchmark skips clouds that contradict
 their dimensions instead of aborting

---
 cloudini_lib/tools/src/mcap_codec_benchmark.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
index 114e083..9bf2a83 100644
--- a/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
+++ b/cloudini_lib/tools/src/mcap_codec_benchmark.cpp
@@ -417,6 +417,11 @@ int main(int argc, char** argv) {
     const uint64_t raw_size = static_cast<uint64_t>(raw_points.size());
     if (raw_size == 0 || base.point_step == 0) continue;
     const uint64_t point_count = raw_size / base.point_step;
+    if (raw_size % base.point_step != 0 || point_count != static_cast<uint64_t>(base.width) * base.height) {
+      std::cerr << "  [warn] " << topic << " msg #" << this_seen
+                << ": data size does not match the declared dimensions, skipping\n";
+      continue;
+    }
 
     auto& st = stats[topic];
     st.messages += 1;
-- 
2.43.0

