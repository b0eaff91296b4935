From 922a66967c7d87c1b0e2e205480284c9c2075b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 01/23] fix: RemoveScale refuses NaN instead of casting it to
 an integer

A NaN passes both comparisons of the range check, so the undefined cast
produced an arbitrary stored coordinate.
---
 cpp/include/copc-lib/las/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 75af069..f9ea887 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -19,7 +19,7 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 {
     double val = std::round((value - offset) / scale);
 
-    if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+    if (!(val >= std::numeric_limits<T>::min() && val <= std::numeric_limits<T>::max()))
         throw std::runtime_error("The value " + std::to_string(value) +
                                  " is too large to save into the requested format." +
                                  " Your scale and/or offset may be incorrect.");
-- 
2.43.0


From b31be1c6e5eb09ffd6101f00fe3601d6a2b7ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 02/23] fix: LasHeader::ApplyInverseScale undoes ApplyScale

ApplyScale computes v * scale + offset, so its inverse is
(v - offset) / scale and not v / scale - offset.
---
 cpp/include/copc-lib/las/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index f7fc0e6..0d67bd7 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -108,7 +108,7 @@ class LasHeader
 
     // Apply Las scale factors to Vector3 or double
     Vector3 ApplyScale(const Vector3 &unscaled_value) const { return unscaled_value * scale_ + offset_; }
-    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return scaled_value / scale_ - offset_; }
+    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return (scaled_value - offset_) / scale_; }
     double ApplyScaleX(double unscaled_value) const { return unscaled_value * scale_.x + offset_.x; }
     double ApplyScaleY(double unscaled_value) const { return unscaled_value * scale_.y + offset_.y; }
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
-- 
2.43.0


From 605e86f9d79bed3318001085b90bc86489466bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 03/23] fix: LasHeader::RemoveScaleX/Y/Z refuse values that do
 not fit

The header conversions cast any rounded double to int32_t, which is
undefined for values out of range; use the checked RemoveScale like the
point codec does.
---
 cpp/include/copc-lib/las/header.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index 0d67bd7..34a8195 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -9,6 +9,7 @@
 #include <string>
 
 #include "copc-lib/geometry/vector3.hpp"
+#include "copc-lib/las/utils.hpp"
 #include <lazperf/header.hpp>
 #include <lazperf/readers.hpp>
 
@@ -114,15 +115,15 @@ class LasHeader
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
     int32_t RemoveScaleX(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.x) / scale_.x));
+        return las::RemoveScale<int32_t>(scaled_value, scale_.x, offset_.x);
     }
     int32_t RemoveScaleY(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.y) / scale_.y));
+        return las::RemoveScale<int32_t>(scaled_value, scale_.y, offset_.y);
     }
     int32_t RemoveScaleZ(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.z) / scale_.z));
+        return las::RemoveScale<int32_t>(scaled_value, scale_.z, offset_.z);
     }
 
     uint16_t file_source_id{};
-- 
2.43.0


From 29c5d4a7f2de42c76e710d2f107150303113001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 04/23] fix: LasHeader::FromLazPerf stops at the end of
 full-length text fields

guid, system_identifier and generating_software need not be zero
terminated when they use all of their 16/32 characters; reading them as C
strings ran into the following header fields.
---
 cpp/src/las/header.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 85472d4..b722531 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -58,11 +58,13 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = header.guid;
+    h.guid_ = std::string(header.guid, strnlen(header.guid, sizeof(header.guid)));
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
-    h.system_identifier_ = header.system_identifier;
-    h.generating_software_ = header.generating_software;
+    h.system_identifier_ =
+        std::string(header.system_identifier, strnlen(header.system_identifier, sizeof(header.system_identifier)));
+    h.generating_software_ = std::string(header.generating_software,
+                                         strnlen(header.generating_software, sizeof(header.generating_software)));
     h.creation_day = header.creation.day;
     h.creation_year = header.creation.year;
     if (header.header_size != HEADER_SIZE_BYTES)
-- 
2.43.0


From b4526660750fff539d22da64bc78826265d089b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 05/23] fix: Points::PointSourceId handles 16-bit source ids

The point source id has 16 bits, but the bulk getter and setter used
vector<uint8_t> and silently truncated it. The 8-bit setter overload is
kept for existing callers.
---
 cpp/include/copc-lib/las/points.hpp | 12 ++++++++++--
 python/bindings.cpp                 |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/points.hpp b/cpp/include/copc-lib/las/points.hpp
index ff76f28..ecb72a6 100644
--- a/cpp/include/copc-lib/las/points.hpp
+++ b/cpp/include/copc-lib/las/points.hpp
@@ -134,9 +134,9 @@ class Points
             points_[i]->Classification(in[i]);
     }
 
-    std::vector<uint8_t> PointSourceId() const
+    std::vector<uint16_t> PointSourceId() const
     {
-        std::vector<uint8_t> out;
+        std::vector<uint16_t> out;
         out.resize(Size());
         std::transform(points_.begin(), points_.end(), out.begin(),
                        [](const std::shared_ptr<Point> &p) { return p->PointSourceId(); });
@@ -150,6 +150,14 @@ class Points
         for (unsigned i = 0; i < points_.size(); ++i)
             points_[i]->PointSourceId(in[i]);
     }
+    void PointSourceId(const std::vector<uint16_t> &in)
+    {
+        if (in.size() != Size())
+            throw std::runtime_error("PointSourceId setter array must be same size as Points array!");
+
+        for (unsigned i = 0; i < points_.size(); ++i)
+            points_[i]->PointSourceId(in[i]);
+    }
 
     std::vector<uint16_t> Red() const
     {
diff --git a/python/bindings.cpp b/python/bindings.cpp
index b054fe3..8d60588 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -303,7 +303,7 @@ PYBIND11_MODULE(_core, m)
         .def_property("classification", py::overload_cast<>(&las::Points::Classification, py::const_),
                       py::overload_cast<const std::vector<uint8_t> &>(&las::Points::Classification))
         .def_property("point_source_id", py::overload_cast<>(&las::Points::PointSourceId, py::const_),
-                      py::overload_cast<const std::vector<uint8_t> &>(&las::Points::PointSourceId))
+                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::PointSourceId))
         .def_property("red", py::overload_cast<>(&las::Points::Red, py::const_),
                       py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Red))
         .def_property("green", py::overload_cast<>(&las::Points::Green, py::const_),
-- 
2.43.0


From 186e75c7cca59a33b1472adcc78a03b5bb98f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 06/23] fix: VoxelKey::GetParentAtDepth works for any depth
 difference

For 31 or more levels 2^n does not fit an int, so the cast was undefined.
---
 cpp/src/hierarchy/key.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hierarchy/key.cpp b/cpp/src/hierarchy/key.cpp
index 9c34bec..65f09c4 100644
--- a/cpp/src/hierarchy/key.cpp
+++ b/cpp/src/hierarchy/key.cpp
@@ -55,8 +55,9 @@ VoxelKey VoxelKey::GetParentAtDepth(int32_t depth) const
     if (depth < 0 || depth > d)
         throw std::runtime_error("VoxelKey::GetParentAtDepth: Invalid depth requested.");
 
-    int reduction_factor = (int)std::pow(2, d - depth);
-    return {depth, x / reduction_factor, y / reduction_factor, z / reduction_factor};
+    // key components have 31 bits, so any larger shift gives 0 as well
+    int shift = d - depth < 31 ? d - depth : 31;
+    return {depth, x >> shift, y >> shift, z >> shift};
 }
 
 std::vector<VoxelKey> VoxelKey::GetParents(bool include_self) const
-- 
2.43.0


From 9586ab2e78e0614ded6874d69535570616fb860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 07/23] fix: decompress records longer than 255 bytes without
 overflowing

Extra bytes can make a record far longer than the fixed 255 byte buffers.
---
 cpp/include/copc-lib/laz/decompressor.hpp | 6 +++---
 cpp/src/io/laz_reader.cpp                 | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/laz/decompressor.hpp b/cpp/include/copc-lib/laz/decompressor.hpp
index 034d6ac..d939c60 100644
--- a/cpp/include/copc-lib/laz/decompressor.hpp
+++ b/cpp/include/copc-lib/laz/decompressor.hpp
@@ -28,11 +28,11 @@ class Decompressor
         las_decompressor::ptr decompressor = build_las_decompressor(stre.cb(), point_format_id, eb_byte_size);
 
         int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);
-        char buff[255];
+        std::vector<char> buff(point_size);
         for (int i = 0; i < point_count; i++)
         {
-            decompressor->decompress(buff);
-            out.insert(out.end(), buff, buff + point_size);
+            decompressor->decompress(buff.data());
+            out.insert(out.end(), buff.begin(), buff.end());
         }
         // clear the EOF flag, since lazperf may read too large of a buffer
         in_stream.clear();
diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 60a48d9..6682656 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -10,11 +10,11 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
-    char buff[255];
+    std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff);
-        out.insert(out.end(), buff, buff + point_size);
+        reader_->readPoint(buff.data());
+        out.insert(out.end(), buff.begin(), buff.end());
     }
 
     return out;
-- 
2.43.0


From 81a2459192eba6ecd4b065594cc36b4183e8fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 08/23] fix: Writer::ChangeNodePage records the new page of the
 node

Without it a second move left the node in two pages or dereferenced a
page that no longer existed.
---
 cpp/src/io/copc_writer_public.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ef33802..ed18250 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -168,6 +168,9 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     // If old page has no nodes left then remove it, unless it is root page
     if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
         hierarchy_->seen_pages_.erase(node->page_key);
+
+    // Remember the new page, it is the one to leave the next time
+    node->page_key = new_page_key;
 }
 
 void FileWriter::Close()
-- 
2.43.0


From e0979fe9e1e0f8a055f2ed126db49906acce29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 09/23] fix: refuse negative point counts for compressed data

The error says the count must be >0, but negative counts were accepted
and corrupted the point count and the hierarchy.
---
 cpp/src/io/copc_writer_public.cpp | 2 +-
 cpp/src/io/laz_writer.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ed18250..71e3b85 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -126,7 +126,7 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 509cfcc..5dc91ee 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,7 +29,7 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     WriteChunk(compressed_data, point_count, true);
-- 
2.43.0


From 9a80782420331751e684834fa6e8ada1e41cbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 10/23] fix: skip the header the record really has when reading
 VLR payloads

WKT was always read behind an EVLR header and extra bytes and extents
always behind a VLR header, whichever kind of record the file uses.
---
 cpp/src/io/base_reader.cpp | 4 ++--
 cpp/src/io/copc_reader.cpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9a5d2f1..6eee1ca 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -68,7 +68,7 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     auto offset = FetchVlr(vlrs, "LASF_Projection", 2112);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
+        in_stream_->seekg(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
         return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::WktVlr();
@@ -79,7 +79,7 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
         return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::EbVlr();
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a18e7b4..6341ec0 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -47,7 +47,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + (vlrs[offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
         CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
                             static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
@@ -55,7 +55,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
+            in_stream_->seekg(extended_offset +
+                              (vlrs[extended_offset].evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
             extents.SetExtendedStats(
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
         }
-- 
2.43.0


From 49eef73b8717e091ba59fa1e262d925f5495bc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 11/23] fix: default extents have one slot per extra-byte item

For a file without an extents VLR the extra-byte slots were missing.
---
 cpp/src/io/copc_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 6341ec0..29c6a05 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -64,7 +64,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     }
     else
     {
-        return CopcExtents(reader_->header().point_format_id);
+        return CopcExtents(static_cast<int8_t>(reader_->header().point_format_id),
+                           static_cast<uint16_t>(eb_vlr.items.size()));
     }
 }
 
-- 
2.43.0


From cb3018d62c355cc0982ef6918d3b45f21efd28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 12/23] fix: reserve, count and write the extra bytes VLR under
 one condition

Space is reserved when there are descriptors, but the VLR was counted and
written when the record has extra bytes, so undocumented extra bytes made
the VLRs run into the point data.
---
 cpp/src/io/laz_base_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index dc72d9e..05384f7 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -28,7 +28,7 @@ void BaseWriter::WriteLasHeader(bool extended_stats_flag)
 {
     // Write LAS header
     auto las_header = config_->LasHeader().ToLazPerf(OffsetToPointData(), point_count_, evlr_offset_, evlr_count_,
-                                                     config_->LasHeader().EbByteSize(), extended_stats_flag);
+                                                     config_->ExtraBytesVlr().size() > 0, extended_stats_flag);
     out_stream_.seekp(0);
     las_header.write(out_stream_);
 }
@@ -37,7 +37,7 @@ void BaseWriter::WriteLazAndEbVlrs()
 {
 
     // Write optional LAS Extra Byte VLR
-    if (config_->LasHeader().EbByteSize() > 0)
+    if (config_->ExtraBytesVlr().size() > 0)
     {
         auto ebVlr = this->config_->ExtraBytesVlr();
         ebVlr.header().write(out_stream_);
-- 
2.43.0


From ce2a24bfb39479d51a202494c2a2b15c642ddba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 13/23] fix: refuse illegal extra-byte data types

A data type above 30 read outside of the size table.
---
 cpp/src/las/vlr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index f3c1f4a..efd22f5 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -14,6 +14,8 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
     {
         if (item.data_type == 0)
             out += item.options;
+        else if (item.data_type > 30)
+            throw std::runtime_error("NumBytesFromExtraBytes: Illegal extra byte data type.");
         else
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
     }
-- 
2.43.0


From 7c7cace1a219967cf9d2d7d703a0b7b92d4e2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 14/23] fix: CopcExtent from a vector refuses a negative
 variance

The other constructors already do.
---
 cpp/src/copc/extents.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index c2cb88a..8f1a46f 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -26,6 +26,8 @@ CopcExtent::CopcExtent(const std::vector<double> &vec)
 
     if (vec.size() == 4)
     {
+        if (vec[3] < 0)
+            throw std::runtime_error("CopcExtent: Variance must be >= 0.");
         mean = vec[2];
         var = vec[3];
     }
-- 
2.43.0


From f26050bf7a2afbd5b7c73ec6a4a58dbefef03fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 15/23] fix: rebuilt CopcExtents do not share slots with their
 source

Changing an extent of the copy changed the source as well.
---
 cpp/src/copc/extents.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index 8f1a46f..ff2ca5c 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -76,19 +76,19 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
 {
     // Copy generic extents
     for (int i{0}; i <= 13; i++)
-        extents_[i] = other.extents_[i];
+        *extents_[i] = *other.extents_[i];
 
     // Copy RGB
     if (point_format_id > 6 && other.point_format_id_ > 6)
     {
-        extents_[14] = other.extents_[14];
-        extents_[15] = other.extents_[15];
-        extents_[16] = other.extents_[16];
+        *extents_[14] = *other.extents_[14];
+        *extents_[15] = *other.extents_[15];
+        *extents_[16] = *other.extents_[16];
     }
 
     // Copy NIR
     if (point_format_id == 8 && other.point_format_id_ == 8)
-        extents_[17] = other.extents_[17];
+        *extents_[17] = *other.extents_[17];
 
     // Copy EBs
     auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());
@@ -99,8 +99,8 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
     else
     {
         for (int i{0}; i < num_eb_items; i++)
-            extents_[PointBaseNumberExtents(point_format_id_) + i] =
-                other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
+            *extents_[PointBaseNumberExtents(point_format_id_) + i] =
+                *other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
     }
 }
 
-- 
2.43.0


From 93a7dee297f9bb22a04c426b847b63d2d4b7c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 16/23] fix: compare whole extra-byte descriptors

memcmp looked at 3 bytes of arrays that hold three 8 byte values.
---
 cpp/include/copc-lib/las/vlr.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 363e595..8da4c9b 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -70,9 +70,11 @@ namespace lazperf
 inline bool operator==(const eb_vlr::ebfield &a, const eb_vlr::ebfield &b)
 {
     return std::memcmp(a.reserved, b.reserved, 2) == 0 && a.data_type == b.data_type && a.options == b.options &&
-           a.name == b.name && std::memcmp(a.no_data, b.no_data, 3) == 0 && std::memcmp(a.minval, b.minval, 3) == 0 &&
-           std::memcmp(a.maxval, b.maxval, 3) == 0 && std::memcmp(a.scale, b.scale, 3) == 0 &&
-           std::memcmp(a.offset, b.offset, 3) == 0 && a.description == b.description;
+           a.name == b.name && std::memcmp(a.no_data, b.no_data, sizeof(a.no_data)) == 0 &&
+           std::memcmp(a.minval, b.minval, sizeof(a.minval)) == 0 &&
+           std::memcmp(a.maxval, b.maxval, sizeof(a.maxval)) == 0 &&
+           std::memcmp(a.scale, b.scale, sizeof(a.scale)) == 0 &&
+           std::memcmp(a.offset, b.offset, sizeof(a.offset)) == 0 && a.description == b.description;
 }
 } // namespace lazperf
 
-- 
2.43.0


From 0f5261d95037e21157a08831753242832aee9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 17/23] fix: refuse hierarchy entries the file does not contain

Entries of a truncated page were built from uninitialised memory.
---
 cpp/src/io/copc_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 29c6a05..f96a79e 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -83,7 +83,7 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     for (int i = 0; i < num_entries; i++)
     {
         Entry e = Entry::Unpack(*in_stream_);
-        if (!e.IsValid())
+        if (in_stream_->fail() || !e.IsValid())
             throw std::runtime_error("Entry is invalid! " + e.ToString());
 
         out.push_back(e);
-- 
2.43.0


From 4e75cba2e52d320eea29b5d6af4a77e5ce37e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 18/23] fix: copies of writer configurations have their own
 header

Copying or assigning a LazConfigWriter, or assigning a CopcConfigWriter,
shared the header with its source, so two writers opened with one
configuration changed each other's bounds and point counts.
---
 cpp/include/copc-lib/copc/copc_config.hpp | 7 +++++++
 cpp/include/copc-lib/las/laz_config.hpp   | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/cpp/include/copc-lib/copc/copc_config.hpp b/cpp/include/copc-lib/copc/copc_config.hpp
index 5bd503b..bd3d077 100644
--- a/cpp/include/copc-lib/copc/copc_config.hpp
+++ b/cpp/include/copc-lib/copc/copc_config.hpp
@@ -56,6 +56,13 @@ class CopcConfigWriter : public CopcConfig
     {
     }
 
+    // Copy assignment, a copy has its own header, info and extents
+    CopcConfigWriter &operator=(const CopcConfigWriter &copc_config_writer)
+    {
+        CopcConfig::operator=(static_cast<const CopcConfig &>(CopcConfigWriter(copc_config_writer)));
+        return *this;
+    }
+
     // Copy Constructor from CopcFile
     CopcConfigWriter(const CopcConfig &copc_config)
         : CopcConfig(copc_config.LasHeader(), copc_config.CopcInfo(), copc_config.CopcExtents(), copc_config.Wkt(),
diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 3686ec8..fa277bb 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -53,6 +53,14 @@ class LazConfigWriter : public LazConfig
                     const Vector3 &offset = Vector3::DefaultOffset(), const std::string &wkt = "",
                     const las::EbVlr &extra_bytes_vlr = las::EbVlr(0));
 
+    // Copy constructor and assignment, a copy has its own header
+    LazConfigWriter(const LazConfigWriter &laz_config_writer) : LazConfig(laz_config_writer) {}
+    LazConfigWriter &operator=(const LazConfigWriter &laz_config_writer)
+    {
+        LazConfig::operator=(static_cast<const LazConfig &>(LazConfigWriter(laz_config_writer)));
+        return *this;
+    }
+
     LazConfigWriter(const LazConfig &laz_config)
         : LazConfig(las::LasHeader(laz_config.LasHeader(), false), laz_config.Wkt(), laz_config.ExtraBytesVlr())
     {
-- 
2.43.0


From 3c6cbd0fb7b7ba00f9d4b88c659c51010638e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 19/23] fix: GetAllChildrenOfPage finds pages whose node is
 listed further up

When the node of a page key is listed in a page above, looking it up does
not load the pages in between, so the answer depended on what had been
loaded before.
---
 cpp/src/io/copc_reader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index f96a79e..7022203 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -168,6 +168,14 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
 
     // Load all pages upto the current key
     auto node = FindNode(key);
+    // The node may be listed in a page above, so the page with this key is possibly not seen yet
+    auto parents_list = key.GetParents(true);
+    auto nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    while (nearest_page != nullptr && !nearest_page->loaded && nearest_page->key != key)
+    {
+        ReadAndParsePage(nearest_page);
+        nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    }
     // If a page with this key doesn't exist, check if the node itself exists and return it
     if (!hierarchy_->PageExists(key))
     {
-- 
2.43.0


From fa1920649294473a3cce20f327ed37f8fcb99cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:19 +0000
Subject: [PATCH 20/23] fix: reading the raw bytes of an empty chunk takes no
 address of a missing element

---
 cpp/src/io/copc_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 7022203..2a0ff43 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -143,7 +143,7 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
 
     std::vector<char> out;
     out.resize(node.byte_size);
-    in_stream_->read(&out[0], node.byte_size);
+    in_stream_->read(out.data(), node.byte_size);
     return out;
 }
 
-- 
2.43.0


From 0c1b48c5564d4d129a89c04e59ab9523628cffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 21/23] fix: count the points out of bounds in 64 bits (the int
 counters overflow on large files)

---
 cpp/src/io/copc_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 2a0ff43..76cf490 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -338,8 +338,8 @@ bool Reader::ValidateSpatialBounds(bool verbose)
     bool is_valid = true;
     auto header = config_.LasHeader();
 
-    int total_points_outside_header_bounds{0};
-    int total_points_outside_node_bounds{0};
+    uint64_t total_points_outside_header_bounds{0};
+    uint64_t total_points_outside_node_bounds{0};
 
     // If verbose, set precision and print the las header.
     if (verbose)
-- 
2.43.0


From a443ac11c05ed48ad059677ac43caabecdd6fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:13 +0000
Subject: [PATCH 22/23] fix: reading a page whose offset cannot be sought to
 throws instead of leaving the stream failed

---
 cpp/src/io/copc_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 76cf490..90e37ed 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -77,6 +77,8 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
 
     // reset the stream to the page's offset
     in_stream_->seekg(page->offset);
+    if (in_stream_->fail())
+        throw std::runtime_error("Reader::ReadPage: Cannot seek to the offset of the page.");
 
     // Iterate through each Entry in the page
     int num_entries = int(page->byte_size / Entry::ENTRY_SIZE);
-- 
2.43.0


From f4ca0c901f296c251d5d9144e4af50e17c5da6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:44 +0000
Subject: [PATCH 23/23] fix: refuse extra-byte descriptors whose VLR does not
 fit its 16-bit length

---
 cpp/include/copc-lib/io/laz_base_writer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index fb09a7a..57781f8 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <iterator>
+#include <limits>
 #include <optional>
 #include <ostream>
 #include <stdexcept>
@@ -26,6 +27,9 @@ class BaseWriter
     BaseWriter(std::ostream &out_stream, std::shared_ptr<las::LazConfig> laz_config)
         : out_stream_(out_stream), config_(std::move(laz_config)), open_(true)
     {
+        // The length of a VLR has 16 bits
+        if (config_->ExtraBytesVlr().size() > (std::numeric_limits<uint16_t>::max)())
+            throw std::runtime_error("BaseWriter: Too many extra byte items, the Extra Bytes VLR is larger than 65535 bytes.");
     }
 
     int32_t WriteChunk(const std::vector<char> &in, int32_t point_count = 0, bool compressed = false,
-- 
2.43.0

