From 3e2f457b006fd3fe0da28fca11afdb34ec2bf510 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 01/41] fix: ChangeNodePage records the node's new page

---
 cpp/src/io/copc_writer_public.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ef33802..c30a1c0 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -168,6 +168,8 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     // If old page has no nodes left then remove it, unless it is root page
     if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
         hierarchy_->seen_pages_.erase(node->page_key);
+
+    node->page_key = new_page_key;
 }
 
 void FileWriter::Close()
-- 
2.43.0


From 70243cbdacfdbcaeb86a91b5399750d559405ae3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 02/41] fix: AddNode rejects keys that lie outside the octree

---
 cpp/src/io/copc_writer_public.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index c30a1c0..ad90365 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -80,7 +80,10 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
     // TODO[leo]: Check if node already loaded
 
     if (!key.ChildOf(page_key))
-        throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());
+        throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " +
+                                 page_key.ToString());
+    if (!key.ChildOf(VoxelKey::RootKey()))
+        throw std::runtime_error("Target key " + key.ToString() + " is not part of the octree.");
 
     Entry e = writer_->WriteNode(in, point_count, compressed_data);
     e.key = key;
-- 
2.43.0


From 542814fc26f19bae851c7bf37282aaf8f16148ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 03/41] fix: re-adding a node under another page leaves no
 entry in the old page

---
 cpp/src/io/copc_writer_public.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ad90365..e33d834 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -89,6 +89,15 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
     e.key = key;
 
     auto node = std::make_shared<Node>(e, page_key);
+    // If the node already exists in another page then remove it from there
+    auto old_node = hierarchy_->loaded_nodes_.find(key);
+    if (old_node != hierarchy_->loaded_nodes_.end() && old_node->second->page_key != page_key)
+    {
+        auto old_page_key = old_node->second->page_key;
+        hierarchy_->seen_pages_[old_page_key]->nodes.erase(key);
+        if (old_page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[old_page_key]->nodes.empty())
+            hierarchy_->seen_pages_.erase(old_page_key);
+    }
     hierarchy_->loaded_nodes_[key] = node;
     // If page doesn't exist then create it
     if (!PageExists(page_key))
-- 
2.43.0


From ca22346cb09b35e8800562c2b40cabe9b16b583d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 04/41] fix: writers reject negative point counts

---
 cpp/src/io/copc_writer_public.cpp | 2 +-
 cpp/src/io/laz_writer.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index e33d834..77ca288 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -138,7 +138,7 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 509cfcc..5dc91ee 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,7 +29,7 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     WriteChunk(compressed_data, point_count, true);
-- 
2.43.0


From 5851194f79ec1d2d1144eff3a271882eedf39e67 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 05/41] fix: chunks can not be written to a closed writer

---
 cpp/src/io/laz_base_writer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index dc72d9e..609dd11 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -112,6 +112,9 @@ void BaseWriter::WriteWKT()
 int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count, bool compressed, uint64_t *offset,
                                int32_t *byte_size)
 {
+    if (!open_)
+        throw std::runtime_error("BaseWriter::WriteChunk: Writer is closed!");
+
     uint64_t startpos = out_stream_.tellp();
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
-- 
2.43.0


From b35241ed107a87791baad823403ad587df943ac7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 06/41] fix: output errors are reported by the writers instead
 of being lost

---
 cpp/include/copc-lib/io/copc_writer.hpp     |  4 ++--
 cpp/include/copc-lib/io/laz_base_writer.hpp | 19 +++++++++++++++-
 cpp/include/copc-lib/io/laz_writer.hpp      |  2 +-
 cpp/src/io/copc_writer_internal.cpp         |  3 ++-
 cpp/src/io/laz_base_writer.cpp              | 24 +++++++++++++++------
 5 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_writer.hpp b/cpp/include/copc-lib/io/copc_writer.hpp
index 482c1e7..2830e7c 100644
--- a/cpp/include/copc-lib/io/copc_writer.hpp
+++ b/cpp/include/copc-lib/io/copc_writer.hpp
@@ -49,7 +49,7 @@ class Writer : public BaseIO
 
     std::shared_ptr<CopcConfigWriter> CopcConfig() { return config_; }
 
-    ~Writer() { Close(); }
+    ~Writer() { laz::BaseWriter::CloseNoThrow([this] { Close(); }); }
 
   protected:
     Writer() = default;
@@ -89,7 +89,7 @@ class FileWriter : public Writer, laz::BaseFileWriter
     }
 
     void Close() override;
-    ~FileWriter() { Close(); }
+    ~FileWriter() { laz::BaseWriter::CloseNoThrow([this] { Close(); }); }
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index fb09a7a..40fb75d 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -2,6 +2,7 @@
 #define COPCLIB_IO_LAZ_BASE_WRITER_H_
 
 #include <array>
+#include <iostream>
 #include <iterator>
 #include <optional>
 #include <ostream>
@@ -41,9 +42,25 @@ class BaseWriter
     virtual void WriteHeader();
 
     virtual void Close();
-    ~BaseWriter() { Close(); }
+    ~BaseWriter() { CloseNoThrow([this] { Close(); }); }
+
+    // Destructors can't throw, so they report errors on stderr instead
+    template <typename CloseFunction> static void CloseNoThrow(CloseFunction close)
+    {
+        try
+        {
+            close();
+        }
+        catch (const std::exception &e)
+        {
+            std::cerr << e.what() << std::endl;
+        }
+    }
 
   protected:
+    // Flushes the output and throws if anything couldn't be written
+    void FlushStream();
+
     static const uint32_t VARIABLE_CHUNK_SIZE = std::numeric_limits<uint32_t>::max();
 
     bool open_{};
diff --git a/cpp/include/copc-lib/io/laz_writer.hpp b/cpp/include/copc-lib/io/laz_writer.hpp
index 1586a2e..ff6704e 100644
--- a/cpp/include/copc-lib/io/laz_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_writer.hpp
@@ -51,7 +51,7 @@ class LazFileWriter : BaseFileWriter, public LazWriter
         LazWriter::Close();
         BaseFileWriter::Close();
     };
-    ~LazFileWriter() { Close(); };
+    ~LazFileWriter() { CloseNoThrow([this] { Close(); }); };
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index deab4e8..faeae93 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -46,6 +46,7 @@ void WriterInternal::Close()
 {
     if (!open_)
         return;
+    open_ = false;
 
     WriteChunkTable();
 
@@ -64,7 +65,7 @@ void WriterInternal::Close()
 
     WriteHeader();
 
-    open_ = false;
+    FlushStream();
 }
 
 // Writes the LAS header and VLRs
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 609dd11..0e11314 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -115,7 +115,7 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     if (!open_)
         throw std::runtime_error("BaseWriter::WriteChunk: Writer is closed!");
 
-    uint64_t startpos = out_stream_.tellp();
+    auto startpos = static_cast<int64_t>(out_stream_.tellp());
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
     if (offset != nullptr)
@@ -128,11 +128,11 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
 
     point_count_ += point_count;
 
-    uint64_t endpos = out_stream_.tellp();
+    auto endpos = static_cast<int64_t>(out_stream_.tellp());
     if (endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), endpos});
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
 
     auto size = endpos - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
@@ -148,6 +148,7 @@ void BaseWriter::Close()
 {
     if (!open_)
         return;
+    open_ = false;
 
     WriteChunkTable();
 
@@ -159,7 +160,14 @@ void BaseWriter::Close()
 
     WriteHeader();
 
-    open_ = false;
+    FlushStream();
+}
+
+void BaseWriter::FlushStream()
+{
+    out_stream_.flush();
+    if (out_stream_.fail())
+        throw std::runtime_error("BaseWriter::Close: Error while writing to the output stream!");
 }
 
 BaseFileWriter::BaseFileWriter(const std::string &file_path)
@@ -172,7 +180,11 @@ BaseFileWriter::BaseFileWriter(const std::string &file_path)
 
 void BaseFileWriter::Close()
 {
-    if (f_stream_.is_open())
-        f_stream_.close();
+    if (!f_stream_.is_open())
+        return;
+
+    f_stream_.close();
+    if (f_stream_.fail())
+        throw std::runtime_error("FileWriterBase: Error while closing file.");
 }
 } // namespace copc::laz
-- 
2.43.0


From dfd3c8c995c51a7bd2826bd82978097701b7b6b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 07/41] fix: GetAllChildrenOfPage does not depend on which
 pages are already loaded

---
 cpp/src/io/copc_reader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a18e7b4..951997e 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -166,6 +166,13 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
 
     // Load all pages upto the current key
     auto node = FindNode(key);
+    auto parents_list = key.GetParents(true);
+    auto nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    while (nearest_page != nullptr && !nearest_page->loaded && nearest_page->key != key)
+    {
+        ReadAndParsePage(nearest_page);
+        nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    }
     // If a page with this key doesn't exist, check if the node itself exists and return it
     if (!hierarchy_->PageExists(key))
     {
-- 
2.43.0


From b90c4f7b16c8404fbd68bf9cc0438a3c9d20d710 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 08/41] fix: a hierarchy that references a page twice is
 rejected

---
 cpp/src/io/copc_base_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2aea847..4b408ce 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -56,6 +56,8 @@ void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &pag
     {
         if (e.IsPage())
         {
+            if (hierarchy_->PageExists(e.key))
+                throw std::runtime_error("Page " + e.key.ToString() + " is referenced more than once.");
             auto subpage = std::make_shared<Internal::PageInternal>(e);
             hierarchy_->seen_pages_[e.key] = subpage;
             page->sub_pages.insert(subpage);
-- 
2.43.0


From f121c655909664ed6f5836ebb0c2435a683aa4f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 09/41] fix: records are read correctly whether stored as VLR
 or EVLR

---
 cpp/include/copc-lib/las/vlr.hpp | 3 +++
 cpp/src/io/base_reader.cpp       | 4 ++--
 cpp/src/io/copc_reader.cpp       | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 363e595..b658cce 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -29,6 +29,9 @@ class VlrHeader : public lazperf::evlr_header
     VlrHeader(const lazperf::vlr_header &vlr_header);
     VlrHeader(const VlrHeader &vlr_header);
 
+    // Size in bytes of this header in the file
+    int HeaderSize() const { return evlr_flag ? EVLR_HEADER_SIZE : VLR_HEADER_SIZE; }
+
     lazperf::vlr_header ToLazperfVlrHeader() const;
     lazperf::evlr_header ToLazperfEvlrHeader() const;
 };
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9a5d2f1..56f8d57 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -68,7 +68,7 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     auto offset = FetchVlr(vlrs, "LASF_Projection", 2112);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
+        in_stream_->seekg(offset + vlrs[offset].HeaderSize());
         return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::WktVlr();
@@ -79,7 +79,7 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + vlrs[offset].HeaderSize());
         return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::EbVlr();
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 951997e..34fecf2 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -47,7 +47,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        in_stream_->seekg(offset + vlrs[offset].HeaderSize());
         CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
                             static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
@@ -55,7 +55,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
+            in_stream_->seekg(extended_offset + vlrs[extended_offset].HeaderSize());
             extents.SetExtendedStats(
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
         }
-- 
2.43.0


From 3b84afabdbce80363745b052b2205115e44a84cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 10/41] fix: default extents account for the extra byte items

---
 cpp/src/io/copc_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 34fecf2..004ad62 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -63,7 +63,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     }
     else
     {
-        return CopcExtents(reader_->header().point_format_id);
+        return CopcExtents(static_cast<int8_t>(reader_->header().point_format_id),
+                           static_cast<uint16_t>(eb_vlr.items.size()));
     }
 }
 
-- 
2.43.0


From 634ea0182e0d39920a38edcabed0f10d66e276dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 11/41] fix: the extra bytes VLR is written exactly when there
 are extra byte items

---
 cpp/src/io/laz_base_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 0e11314..e3f637a 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -28,7 +28,7 @@ void BaseWriter::WriteLasHeader(bool extended_stats_flag)
 {
     // Write LAS header
     auto las_header = config_->LasHeader().ToLazPerf(OffsetToPointData(), point_count_, evlr_offset_, evlr_count_,
-                                                     config_->LasHeader().EbByteSize(), extended_stats_flag);
+                                                     !config_->ExtraBytesVlr().items.empty(), extended_stats_flag);
     out_stream_.seekp(0);
     las_header.write(out_stream_);
 }
@@ -37,7 +37,7 @@ void BaseWriter::WriteLazAndEbVlrs()
 {
 
     // Write optional LAS Extra Byte VLR
-    if (config_->LasHeader().EbByteSize() > 0)
+    if (!config_->ExtraBytesVlr().items.empty())
     {
         auto ebVlr = this->config_->ExtraBytesVlr();
         ebVlr.header().write(out_stream_);
-- 
2.43.0


From f0160135f21304da45bbe2dcfeafba261fef988b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 12/41] fix: point records longer than 255 bytes are read
 without overflowing a buffer

---
 cpp/include/copc-lib/laz/decompressor.hpp | 6 +++---
 cpp/src/io/laz_reader.cpp                 | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/laz/decompressor.hpp b/cpp/include/copc-lib/laz/decompressor.hpp
index 034d6ac..d939c60 100644
--- a/cpp/include/copc-lib/laz/decompressor.hpp
+++ b/cpp/include/copc-lib/laz/decompressor.hpp
@@ -28,11 +28,11 @@ class Decompressor
         las_decompressor::ptr decompressor = build_las_decompressor(stre.cb(), point_format_id, eb_byte_size);
 
         int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);
-        char buff[255];
+        std::vector<char> buff(point_size);
         for (int i = 0; i < point_count; i++)
         {
-            decompressor->decompress(buff);
-            out.insert(out.end(), buff, buff + point_size);
+            decompressor->decompress(buff.data());
+            out.insert(out.end(), buff.begin(), buff.end());
         }
         // clear the EOF flag, since lazperf may read too large of a buffer
         in_stream.clear();
diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 60a48d9..6682656 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -10,11 +10,11 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
-    char buff[255];
+    std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff);
-        out.insert(out.end(), buff, buff + point_size);
+        reader_->readPoint(buff.data());
+        out.insert(out.end(), buff.begin(), buff.end());
     }
 
     return out;
-- 
2.43.0


From 0d6cb86621122098ed3f6b812e43c40f0d3ed6b7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 13/41] fix: GUID, system identifier and generating software
 survive at full length

---
 cpp/src/las/header.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 85472d4..8a2d2f4 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -14,6 +14,24 @@
 namespace copc::las
 {
 
+namespace
+{
+// Fixed-size fields are padded with zeros, but aren't zero-terminated when they use their full size
+template <size_t N> std::string ReadField(const char (&field)[N])
+{
+    size_t size = N;
+    while (size > 0 && field[size - 1] == 0)
+        size--;
+    return std::string(field, size);
+}
+
+template <size_t N> void WriteField(char (&field)[N], const std::string &value)
+{
+    std::memset(field, 0, N);
+    std::memcpy(field, value.data(), (std::min)(N, value.size()));
+}
+} // namespace
+
 LasHeader::LasHeader(const LasHeader &header, int8_t point_format_id, uint16_t point_record_length,
                      const Vector3 &scale, const Vector3 &offset)
     : LasHeader(header)
@@ -58,11 +76,11 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = header.guid;
+    h.guid_ = ReadField(header.guid);
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
-    h.system_identifier_ = header.system_identifier;
-    h.generating_software_ = header.generating_software;
+    h.system_identifier_ = ReadField(header.system_identifier);
+    h.generating_software_ = ReadField(header.generating_software);
     h.creation_day = header.creation.day;
     h.creation_year = header.creation.year;
     if (header.header_size != HEADER_SIZE_BYTES)
@@ -102,11 +120,11 @@ lazperf::header14 LasHeader::ToLazPerf(uint32_t point_offset, uint64_t point_cou
     h.file_source_id = file_source_id;
     h.global_encoding = global_encoding;
     h.global_encoding |= (1 << 4); // Set the WKT bit.
-    std::strncpy(h.guid, guid_.c_str(), 16);
+    WriteField(h.guid, guid_);
     h.version.major = version_major_;
     h.version.minor = version_minor_;
-    std::strncpy(h.system_identifier, system_identifier_.c_str(), 32);
-    std::strncpy(h.generating_software, generating_software_.c_str(), 32);
+    WriteField(h.system_identifier, system_identifier_);
+    WriteField(h.generating_software, generating_software_);
     h.creation.day = creation_day;
     h.creation.year = creation_year;
     h.header_size = HEADER_SIZE_BYTES;
-- 
2.43.0


From e5a70b0f2ee0b5d02c9a72e2667438def95c9834 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 14/41] fix: ApplyInverseScale is the inverse of ApplyScale

---
 cpp/include/copc-lib/las/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index f7fc0e6..0d67bd7 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -108,7 +108,7 @@ class LasHeader
 
     // Apply Las scale factors to Vector3 or double
     Vector3 ApplyScale(const Vector3 &unscaled_value) const { return unscaled_value * scale_ + offset_; }
-    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return scaled_value / scale_ - offset_; }
+    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return (scaled_value - offset_) / scale_; }
     double ApplyScaleX(double unscaled_value) const { return unscaled_value * scale_.x + offset_.x; }
     double ApplyScaleY(double unscaled_value) const { return unscaled_value * scale_.y + offset_.y; }
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
-- 
2.43.0


From 62da888c0bcfda94c53d9d2ccbd8d55627d82968 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 15/41] fix: RemoveScaleX/Y/Z reject values that can not be
 represented

---
 cpp/include/copc-lib/las/header.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index 0d67bd7..7a8dba3 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -9,6 +9,7 @@
 #include <string>
 
 #include "copc-lib/geometry/vector3.hpp"
+#include "copc-lib/las/utils.hpp"
 #include <lazperf/header.hpp>
 #include <lazperf/readers.hpp>
 
@@ -114,15 +115,15 @@ class LasHeader
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
     int32_t RemoveScaleX(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.x) / scale_.x));
+        return RemoveScale<int32_t>(scaled_value, scale_.x, offset_.x);
     }
     int32_t RemoveScaleY(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.y) / scale_.y));
+        return RemoveScale<int32_t>(scaled_value, scale_.y, offset_.y);
     }
     int32_t RemoveScaleZ(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.z) / scale_.z));
+        return RemoveScale<int32_t>(scaled_value, scale_.z, offset_.z);
     }
 
     uint16_t file_source_id{};
-- 
2.43.0


From 3770f8c01ea366632292378cbb914f7e3c622ac4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 16/41] fix: NaN coordinates are rejected when packing

---
 cpp/include/copc-lib/las/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 75af069..f9ea887 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -19,7 +19,7 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 {
     double val = std::round((value - offset) / scale);
 
-    if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+    if (!(val >= std::numeric_limits<T>::min() && val <= std::numeric_limits<T>::max()))
         throw std::runtime_error("The value " + std::to_string(value) +
                                  " is too large to save into the requested format." +
                                  " Your scale and/or offset may be incorrect.");
-- 
2.43.0


From bc9affc223919fded900072ea04ddb7e2e59119f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 17/41] fix: Points::PointSourceId does not truncate to 8 bits

---
 cpp/include/copc-lib/las/points.hpp | 7 ++++---
 python/bindings.cpp                 | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/points.hpp b/cpp/include/copc-lib/las/points.hpp
index ff76f28..4a469e9 100644
--- a/cpp/include/copc-lib/las/points.hpp
+++ b/cpp/include/copc-lib/las/points.hpp
@@ -134,15 +134,16 @@ class Points
             points_[i]->Classification(in[i]);
     }
 
-    std::vector<uint8_t> PointSourceId() const
+    std::vector<uint16_t> PointSourceId() const
     {
-        std::vector<uint8_t> out;
+        std::vector<uint16_t> out;
         out.resize(Size());
         std::transform(points_.begin(), points_.end(), out.begin(),
                        [](const std::shared_ptr<Point> &p) { return p->PointSourceId(); });
         return out;
     }
-    void PointSourceId(const std::vector<uint8_t> &in)
+    void PointSourceId(const std::vector<uint8_t> &in) { PointSourceId(std::vector<uint16_t>(in.begin(), in.end())); }
+    void PointSourceId(const std::vector<uint16_t> &in)
     {
         if (in.size() != Size())
             throw std::runtime_error("PointSourceId setter array must be same size as Points array!");
diff --git a/python/bindings.cpp b/python/bindings.cpp
index b054fe3..8d60588 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -303,7 +303,7 @@ PYBIND11_MODULE(_core, m)
         .def_property("classification", py::overload_cast<>(&las::Points::Classification, py::const_),
                       py::overload_cast<const std::vector<uint8_t> &>(&las::Points::Classification))
         .def_property("point_source_id", py::overload_cast<>(&las::Points::PointSourceId, py::const_),
-                      py::overload_cast<const std::vector<uint8_t> &>(&las::Points::PointSourceId))
+                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::PointSourceId))
         .def_property("red", py::overload_cast<>(&las::Points::Red, py::const_),
                       py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Red))
         .def_property("green", py::overload_cast<>(&las::Points::Green, py::const_),
-- 
2.43.0


From 62ae0dc3f4e96f82064f14992089d3423aa5ff7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 18/41] fix: ScanAngleDegrees rounds to the nearest step

---
 cpp/include/copc-lib/las/point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/point.hpp b/cpp/include/copc-lib/las/point.hpp
index 9e3c53f..3751e8a 100644
--- a/cpp/include/copc-lib/las/point.hpp
+++ b/cpp/include/copc-lib/las/point.hpp
@@ -66,7 +66,10 @@ class Point
 
     float ScanAngleDegrees() const { return 0.006f * float(scan_angle_); }
 
-    void ScanAngleDegrees(const float &scan_angle) { scan_angle_ = static_cast<int16_t>(scan_angle / 0.006f); }
+    void ScanAngleDegrees(const float &scan_angle)
+    {
+        scan_angle_ = static_cast<int16_t>(std::round(scan_angle / 0.006f));
+    }
 
     uint8_t UserData() const { return user_data_; }
     void UserData(const uint8_t &user_data) { user_data_ = user_data; }
-- 
2.43.0


From 97cb96c978ac93162f52be3fad75e0a14595e5fe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 19/41] fix: a negative variance is rejected by every
 CopcExtent constructor

---
 cpp/src/copc/extents.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index c2cb88a..f55ddc4 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -28,6 +28,8 @@ CopcExtent::CopcExtent(const std::vector<double> &vec)
     {
         mean = vec[2];
         var = vec[3];
+        if (var < 0)
+            throw std::runtime_error("CopcExtent: Variance must be >= 0.");
     }
 }
 
-- 
2.43.0


From 74f0451e47101a4ee6844d5b3abb3a22d6640b4e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 20/41] fix: derived CopcExtents do not share extents with
 their source

---
 cpp/src/copc/extents.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index f55ddc4..da3e43e 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -76,19 +76,19 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
 {
     // Copy generic extents
     for (int i{0}; i <= 13; i++)
-        extents_[i] = other.extents_[i];
+        *extents_[i] = *other.extents_[i];
 
     // Copy RGB
     if (point_format_id > 6 && other.point_format_id_ > 6)
     {
-        extents_[14] = other.extents_[14];
-        extents_[15] = other.extents_[15];
-        extents_[16] = other.extents_[16];
+        *extents_[14] = *other.extents_[14];
+        *extents_[15] = *other.extents_[15];
+        *extents_[16] = *other.extents_[16];
     }
 
     // Copy NIR
     if (point_format_id == 8 && other.point_format_id_ == 8)
-        extents_[17] = other.extents_[17];
+        *extents_[17] = *other.extents_[17];
 
     // Copy EBs
     auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());
@@ -99,8 +99,8 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
     else
     {
         for (int i{0}; i < num_eb_items; i++)
-            extents_[PointBaseNumberExtents(point_format_id_) + i] =
-                other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
+            *extents_[PointBaseNumberExtents(point_format_id_) + i] =
+                *other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
     }
 }
 
-- 
2.43.0


From a14aa9222bd701d9321c7322682fccdcbf3338d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 21/41] fix: extra byte field comparison looks at whole values

---
 cpp/include/copc-lib/las/vlr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index b658cce..8f3bb9f 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -73,9 +73,9 @@ namespace lazperf
 inline bool operator==(const eb_vlr::ebfield &a, const eb_vlr::ebfield &b)
 {
     return std::memcmp(a.reserved, b.reserved, 2) == 0 && a.data_type == b.data_type && a.options == b.options &&
-           a.name == b.name && std::memcmp(a.no_data, b.no_data, 3) == 0 && std::memcmp(a.minval, b.minval, 3) == 0 &&
-           std::memcmp(a.maxval, b.maxval, 3) == 0 && std::memcmp(a.scale, b.scale, 3) == 0 &&
-           std::memcmp(a.offset, b.offset, 3) == 0 && a.description == b.description;
+           a.name == b.name && std::memcmp(a.no_data, b.no_data, sizeof(a.no_data)) == 0 && std::memcmp(a.minval, b.minval, sizeof(a.minval)) == 0 &&
+           std::memcmp(a.maxval, b.maxval, sizeof(a.maxval)) == 0 && std::memcmp(a.scale, b.scale, sizeof(a.scale)) == 0 &&
+           std::memcmp(a.offset, b.offset, sizeof(a.offset)) == 0 && a.description == b.description;
 }
 } // namespace lazperf
 
-- 
2.43.0


From 6f506dd74ef6069aa684e36f7e283b1cd18714c0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 22/41] fix: truncated headers, pages and chunks are reported
 instead of read as garbage

---
 cpp/src/io/base_reader.cpp |  3 +++
 cpp/src/io/copc_reader.cpp | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 56f8d57..bedfdaa 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -28,6 +28,9 @@ void BaseReader::InitReader()
     auto wkt = ReadWktVlr(vlrs_);
     auto eb = ReadExtraBytesVlr(vlrs_);
 
+    if (in_stream_->fail())
+        throw std::runtime_error("BaseReader::InitReader: The file is truncated.");
+
     las_config_ = las::LazConfig(header, wkt.wkt, eb);
 }
 
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 004ad62..8a123b7 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -24,6 +24,9 @@ void Reader::InitCopcReader()
     auto copc_info = ReadCopcInfoVlr(vlrs_);
     auto copc_extents = ReadCopcExtentsVlr(vlrs_, las_config_.ExtraBytesVlr());
 
+    if (in_stream_->fail())
+        throw std::runtime_error("Reader::InitCopcReader: The file is truncated.");
+
     config_ = copc::CopcConfig(las_config_, copc_info, copc_extents);
     hierarchy_ = std::make_shared<Internal::Hierarchy>(copc_info.root_hier_offset, copc_info.root_hier_size);
 }
@@ -82,7 +85,9 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     for (int i = 0; i < num_entries; i++)
     {
         Entry e = Entry::Unpack(*in_stream_);
-        if (!e.IsValid())
+        if (in_stream_->fail())
+            throw std::runtime_error("Reader::ReadPage: The file is truncated.");
+        if (!e.IsValid() || e.point_count < -1)
             throw std::runtime_error("Entry is invalid! " + e.ToString());
 
         out.push_back(e);
@@ -142,7 +147,9 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
 
     std::vector<char> out;
     out.resize(node.byte_size);
-    in_stream_->read(&out[0], node.byte_size);
+    in_stream_->read(out.data(), node.byte_size);
+    if (in_stream_->gcount() != node.byte_size)
+        throw std::runtime_error("Reader::GetPointDataCompressed: The file is truncated.");
     return out;
 }
 
-- 
2.43.0


From 3dd5ec000f6f30e88bdfb13295ba55d7596892aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 23/41] fix: a failed read does not affect later queries

---
 cpp/src/io/copc_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 8a123b7..b544de6 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -78,6 +78,7 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
         throw std::runtime_error("Reader::ReadPage: Cannot load an invalid page.");
 
     // reset the stream to the page's offset
+    in_stream_->clear();
     in_stream_->seekg(page->offset);
 
     // Iterate through each Entry in the page
@@ -118,6 +119,7 @@ std::vector<char> Reader::GetPointData(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointData: Cannot load an invalid node.");
 
+    in_stream_->clear();
     in_stream_->seekg(node.offset);
 
     auto las_header = config_.LasHeader();
@@ -143,6 +145,7 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointDataCompressed: Cannot load an invalid node.");
 
+    in_stream_->clear();
     in_stream_->seekg(node.offset);
 
     std::vector<char> out;
-- 
2.43.0


From cbcc45974a8682aefdb94e3129425125797a8bfd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 24/41] fix: unknown extra byte data types are rejected

---
 cpp/src/las/vlr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index f3c1f4a..fe7b3a8 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -14,6 +14,8 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
     {
         if (item.data_type == 0)
             out += item.options;
+        else if (item.data_type > 30)
+            throw std::runtime_error("NumBytesFromExtraBytes: Data type must be <= 30.");
         else
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
     }
-- 
2.43.0


From b564da6f66176211df88df9ab830a17bf59baf55 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 25/41] fix: point record lengths smaller than the point format
 are rejected

---
 cpp/src/las/header.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 8a2d2f4..b58b799 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -92,6 +92,8 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
         throw std::runtime_error("LasHeader::FromLazPerf: Supported point formats are 6 to 8.");
     h.point_format_id_ = static_cast<int8_t>(header.point_format_id);
     h.point_record_length_ = header.point_record_length;
+    if (h.point_record_length_ < PointBaseByteSize(h.point_format_id_))
+        throw std::runtime_error("LasHeader::FromLazPerf: Point record length is too small for the point format.");
     std::copy(std::begin(header.points_by_return), std::end(header.points_by_return), std::begin(h.points_by_return));
     h.scale_.x = header.scale.x;
     h.scale_.y = header.scale.y;
-- 
2.43.0


From fcfbdfc8a8a53719fc2e4de29ac7a7102060fce0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 26/41] fix: reading no nodes returns an empty array of
 coordinates

---
 python/copclib/mp/read.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/copclib/mp/read.py b/python/copclib/mp/read.py
index e2a90df..dd53f12 100644
--- a/python/copclib/mp/read.py
+++ b/python/copclib/mp/read.py
@@ -191,6 +191,8 @@ def read_concat_xyz_class_limit(
 
     # Concatenate all the points in the end, and return one large array of
     # all the points in the file
+    if not all_xyz:
+        return np.empty((0, 3))
     return np.concatenate(all_xyz)
 
 
-- 
2.43.0


From 3cef2674f30b7303d965dae74913bda6b7eaf9ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 27/41] fix: empty compressed chunks are refused

---
 cpp/src/io/copc_writer_public.cpp | 2 ++
 cpp/src/io/laz_writer.cpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 77ca288..40021c3 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -138,6 +138,8 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
+    if (compressed_data.empty())
+        throw std::runtime_error("Writer::AddNodeCompressed: Empty point data array.");
     if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 5dc91ee..d58c81e 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,6 +29,8 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
+    if (compressed_data.empty())
+        throw std::runtime_error("LazWriter::WritePointsCompressed: Empty point data array.");
     if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
-- 
2.43.0


From e634664735e7cd2ea4974fc55c8b373f8853ee25 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 28/41] fix: spatial validation counts exactly the offending
 points

The verbose totals counted every point of a node that does not touch the header bounds as outside of the
header and none of them as outside of the node, and missed points that leave the header bounds from a node
whose cell is inside of them.
---
 cpp/src/io/copc_reader.cpp | 53 +++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index b544de6..7de2b22 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -374,41 +374,34 @@ bool Reader::ValidateSpatialBounds(bool verbose)
                 return false;
             std::cout << "Node " << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
                       << std::endl;
-            total_points_outside_header_bounds += node.point_count;
         }
-        else
+
+        auto points = GetPoints(node);
+        // Check that points fall within the las header bounds
+        for (auto const &point : points)
         {
-            auto points = GetPoints(node);
-            // If node not within las header bounds then check individual points
-            if (!Box(node.key, header).Within(header.Bounds()))
+            if (!point->Within(header.Bounds()))
             {
-                for (auto const &point : points)
-                {
-                    if (!point->Within(header.Bounds()))
-                    {
-                        is_valid = false;
-                        if (!verbose)
-                            return false;
-                        std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z() << ") from node "
-                                  << node.key << " is outside of las header bounds (" << header.Bounds() << ")."
-                                  << std::endl;
-                        total_points_outside_header_bounds++;
-                    }
-                }
+                is_valid = false;
+                if (!verbose)
+                    return false;
+                std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z() << ") from node "
+                          << node.key << " is outside of las header bounds (" << header.Bounds() << ")." << std::endl;
+                total_points_outside_header_bounds++;
             }
-            // Check that points fall within the node bounds
-            auto box = Box(node.key, header);
-            for (auto const &point : points)
+        }
+        // Check that points fall within the node bounds
+        auto box = Box(node.key, header);
+        for (auto const &point : points)
+        {
+            if (!point->Within(box))
             {
-                if (!point->Within(box))
-                {
-                    is_valid = false;
-                    if (!verbose)
-                        return false;
-                    std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z()
-                              << ") is outside of node " << node.key << " bounds (" << box << ")." << std::endl;
-                    total_points_outside_node_bounds++;
-                }
+                is_valid = false;
+                if (!verbose)
+                    return false;
+                std::cout << "Point (" << point->X() << "," << point->Y() << "," << point->Z()
+                          << ") is outside of node " << node.key << " bounds (" << box << ")." << std::endl;
+                total_points_outside_node_bounds++;
             }
         }
     }
-- 
2.43.0


From 8af79fe537c9710922aadf1e14c96812a376f482 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 29/41] fix: damaged record counts are reported instead of
 looped over

A header that announces more VLRs or EVLRs than the file has made the reader loop over up to 2^32 records
behind the end of the file.
---
 cpp/src/io/base_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index bedfdaa..6529314 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -46,6 +46,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
+        if (in_stream_->fail())
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: The file is truncated.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
@@ -59,6 +61,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
+        if (in_stream_->fail())
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: The file is truncated.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
-- 
2.43.0


From f7e66ae11f5f2637de1a2baa38fb7feb3eafb7b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 30/41] fix: a page that can't be parsed isn't left half loaded

A page with a doubly referenced sub page was marked as loaded before its entries were checked, so that after
the error later queries answered from the entries read so far.
---
 cpp/src/io/copc_base_io.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 4b408ce..e335cb9 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -1,3 +1,5 @@
+#include <unordered_set>
+
 #include "copc-lib/io/copc_base_io.hpp"
 #include "copc-lib/hierarchy/internal/hierarchy.hpp"
 #include "copc-lib/hierarchy/internal/page.hpp"
@@ -52,12 +54,22 @@ void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &pa
 void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &page)
 {
     auto children = ReadPage(page);
+
+    // Check all entries before adding any, so that a page that can't be parsed isn't left half loaded
+    std::unordered_set<VoxelKey> sub_keys;
+    for (const Entry &e : children)
+    {
+        if (e.IsPage() && (hierarchy_->PageExists(e.key) || !sub_keys.insert(e.key).second))
+        {
+            page->loaded = false;
+            throw std::runtime_error("Page " + e.key.ToString() + " is referenced more than once.");
+        }
+    }
+
     for (const Entry &e : children)
     {
         if (e.IsPage())
         {
-            if (hierarchy_->PageExists(e.key))
-                throw std::runtime_error("Page " + e.key.ToString() + " is referenced more than once.");
             auto subpage = std::make_shared<Internal::PageInternal>(e);
             hierarchy_->seen_pages_[e.key] = subpage;
             page->sub_pages.insert(subpage);
-- 
2.43.0


From 1e590733c954d68f9200d1a8fc214a9a0a7c13bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 31/41] fix: angles in degrees that can't be stored are
 rejected

---
 cpp/include/copc-lib/las/point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/point.hpp b/cpp/include/copc-lib/las/point.hpp
index 3751e8a..43a9001 100644
--- a/cpp/include/copc-lib/las/point.hpp
+++ b/cpp/include/copc-lib/las/point.hpp
@@ -68,7 +68,10 @@ class Point
 
     void ScanAngleDegrees(const float &scan_angle)
     {
-        scan_angle_ = static_cast<int16_t>(std::round(scan_angle / 0.006f));
+        const float steps = std::round(scan_angle / 0.006f);
+        if (!(steps >= std::numeric_limits<int16_t>::min() && steps <= std::numeric_limits<int16_t>::max()))
+            throw std::runtime_error("Scan Angle in degrees is too large to be stored.");
+        scan_angle_ = static_cast<int16_t>(steps);
     }
 
     uint8_t UserData() const { return user_data_; }
-- 
2.43.0


From 7c8bfebc2206451f4afe0f3db979a2331aa59875 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 32/41] fix: copied and assigned configurations do not share
 their header with the source

---
 cpp/include/copc-lib/copc/copc_config.hpp |  4 ++++
 cpp/include/copc-lib/las/laz_config.hpp   |  5 +++++
 cpp/src/copc/copc_config.cpp              | 10 ++++++++++
 cpp/src/las/laz_config.cpp                | 10 ++++++++++
 4 files changed, 29 insertions(+)

diff --git a/cpp/include/copc-lib/copc/copc_config.hpp b/cpp/include/copc-lib/copc/copc_config.hpp
index 5bd503b..54cd2ed 100644
--- a/cpp/include/copc-lib/copc/copc_config.hpp
+++ b/cpp/include/copc-lib/copc/copc_config.hpp
@@ -19,6 +19,10 @@ class CopcConfig : public las::LazConfig
   public:
     CopcConfig() = default;
 
+    // Copies own their elements
+    CopcConfig(const CopcConfig &other);
+    CopcConfig &operator=(const CopcConfig &other);
+
     CopcConfig(const las::LasHeader &header, const CopcInfo &copc_info, const CopcExtents &copc_extents,
                const std::string &wkt, const las::EbVlr &extra_bytes_vlr)
         : LazConfig(las::LasHeader(header, true), wkt, extra_bytes_vlr),
diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 3686ec8..82390b3 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -20,6 +20,11 @@ class LazConfig
 {
   public:
     LazConfig() = default;
+
+    // Copies own their elements
+    LazConfig(const LazConfig &other);
+    LazConfig &operator=(const LazConfig &other);
+
     LazConfig(const las::LasHeader &header, std::string wkt, const las::EbVlr &extra_bytes_vlr) : wkt_(std::move(wkt))
     {
         header_ = std::make_shared<las::LasHeader>(header);
diff --git a/cpp/src/copc/copc_config.cpp b/cpp/src/copc/copc_config.cpp
index ae213b0..9a66e2e 100644
--- a/cpp/src/copc/copc_config.cpp
+++ b/cpp/src/copc/copc_config.cpp
@@ -13,6 +13,16 @@ CopcConfig::CopcConfig(const int8_t &point_format_id, const Vector3 &scale, cons
         std::make_shared<copc::CopcExtents>(point_format_id, extra_bytes_vlr.items.size(), has_extended_stats);
 }
 
+CopcConfig::CopcConfig(const CopcConfig &other) : LazConfig() { *this = other; }
+
+CopcConfig &CopcConfig::operator=(const CopcConfig &other)
+{
+    LazConfig::operator=(other);
+    copc_info_ = other.copc_info_ ? std::make_shared<copc::CopcInfo>(*other.copc_info_) : nullptr;
+    copc_extents_ = other.copc_extents_ ? std::make_shared<copc::CopcExtents>(*other.copc_extents_) : nullptr;
+    return *this;
+}
+
 CopcConfigWriter::CopcConfigWriter(const int8_t &point_format_id, const Vector3 &scale, const Vector3 &offset,
                                    const std::string &wkt, const las::EbVlr &extra_bytes_vlr, bool has_extended_stats)
     : CopcConfig(point_format_id, scale, offset, wkt, extra_bytes_vlr, has_extended_stats)
diff --git a/cpp/src/las/laz_config.cpp b/cpp/src/las/laz_config.cpp
index 8452046..7e2f501 100644
--- a/cpp/src/las/laz_config.cpp
+++ b/cpp/src/las/laz_config.cpp
@@ -19,6 +19,16 @@ LazConfig::LazConfig(const int8_t &point_format_id, const Vector3 &scale, const
     eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
 }
 
+LazConfig::LazConfig(const LazConfig &other) { *this = other; }
+
+LazConfig &LazConfig::operator=(const LazConfig &other)
+{
+    header_ = other.header_ ? std::make_shared<las::LasHeader>(*other.header_) : nullptr;
+    wkt_ = other.wkt_;
+    eb_vlr_ = other.eb_vlr_ ? std::make_shared<las::EbVlr>(*other.eb_vlr_) : nullptr;
+    return *this;
+}
+
 // Copy constructor from CopcConfig
 LazConfig::LazConfig(const copc::CopcConfig &copc_config)
 {
-- 
2.43.0


From c329acb48b7562bbb73798744901dcd39870800b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 33/41] fix: assigned CopcExtents do not share extents with
 their source

---
 cpp/include/copc-lib/copc/extents.hpp | 1 +
 cpp/src/copc/extents.cpp              | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/cpp/include/copc-lib/copc/extents.hpp b/cpp/include/copc-lib/copc/extents.hpp
index 4c7ba3e..0da3de0 100644
--- a/cpp/include/copc-lib/copc/extents.hpp
+++ b/cpp/include/copc-lib/copc/extents.hpp
@@ -58,6 +58,7 @@ class CopcExtents
 
     // Copy constructor
     CopcExtents(const CopcExtents &other);
+    CopcExtents &operator=(const CopcExtents &other);
 
     // Copy constructor with updated protected attributes
     CopcExtents(const CopcExtents &other, int8_t point_format_id, uint16_t num_eb_items, bool has_extended_stats);
diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index da3e43e..a0b6a77 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -70,6 +70,15 @@ CopcExtents::CopcExtents(const CopcExtents &other)
         extents_.push_back(std::make_shared<CopcExtent>(other.Extents()[i]));
 }
 
+CopcExtents &CopcExtents::operator=(const CopcExtents &other)
+{
+    CopcExtents copy(other);
+    point_format_id_ = copy.point_format_id_;
+    has_extended_stats_ = copy.has_extended_stats_;
+    extents_.swap(copy.extents_);
+    return *this;
+}
+
 CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint16_t num_eb_items,
                          bool has_extended_stats)
     : CopcExtents(point_format_id, num_eb_items, has_extended_stats)
-- 
2.43.0


From 3f886a6893e7714971bf6651077faec9d5e8437d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 34/41] fix: overriding other settings of a writer keeps the
 point record length

---
 cpp/src/io/copc_writer_public.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 40021c3..35cd2ea 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -34,17 +34,20 @@ void Writer::InitWriter(std::ostream &out_stream, const CopcConfigWriter &copc_c
             new_wkt = *wkt;
 
         auto new_extra_bytes_vlr = copc_config_writer.ExtraBytesVlr();
+        int new_eb_byte_size = copc_config_writer.LasHeader().EbByteSize();
         if (extra_bytes_vlr)
+        {
             new_extra_bytes_vlr = *extra_bytes_vlr;
+            new_eb_byte_size = las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items);
+        }
 
         auto new_has_extended_stats = copc_config_writer.CopcExtents().HasExtendedStats();
         if (has_extended_stats)
             new_has_extended_stats = *has_extended_stats;
 
         las::LasHeader new_header(copc_config_writer.LasHeader(), new_point_format_id,
-                                  las::PointBaseByteSize(new_point_format_id) +
-                                      las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items),
-                                  new_scale, new_offset);
+                                  las::PointBaseByteSize(new_point_format_id) + new_eb_byte_size, new_scale,
+                                  new_offset);
 
         copc::CopcExtents new_extents(copc_config_writer.CopcExtents(), new_point_format_id,
                                       new_extra_bytes_vlr.items.size(), new_has_extended_stats);
-- 
2.43.0


From b16e5501d549307d7a39e63d01e19a5427724792 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 35/41] fix: CopcExtents::SetExtendedStats accepted negative
 variances, leaving extents that cannot be copied

---
 cpp/src/copc/extents.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index a0b6a77..9da6a33 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -155,6 +155,11 @@ void CopcExtents::SetExtendedStats(const las::CopcExtentsVlr &vlr)
         throw std::runtime_error("CopcExtents::SetExtendedStats: This instance does not have extended stats.");
     if (vlr.items.size() != extents_.size())
         throw std::runtime_error("CopcExtents::SetExtendedStats: Number of extended extents incorrect.");
+    for (const auto &item : vlr.items)
+    {
+        if (item.maximum < 0)
+            throw std::runtime_error("CopcExtents::SetExtendedStats: Variance must be >= 0.");
+    }
     for (int i = 0; i < vlr.items.size(); i++)
     {
         extents_[i]->mean = vlr.items[i].minimum;
-- 
2.43.0


From 0e4583e0cf83fcdae03cf9e2c02eef262bc0ecbd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 36/41] fix: LAS headers whose text fields aren't UTF-8 can be
 pickled

---
 python/bindings.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 8d60588..e194f14 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -506,11 +506,12 @@ PYBIND11_MODULE(_core, m)
         .def(py::pickle(
             [](const las::LasHeader &h) { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                return py::make_tuple(h.file_source_id, h.global_encoding, h.GUID(), h.SystemIdentifier(),
-                                      h.GeneratingSoftware(), h.creation_day, h.creation_year, h.PointOffset(),
-                                      h.VlrCount(), h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(),
-                                      h.max, h.min, h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return,
-                                      h.IsCopc());
+                // The text fields may hold any bytes, not only valid UTF-8
+                return py::make_tuple(h.file_source_id, h.global_encoding, py::bytes(h.GUID()),
+                                      py::bytes(h.SystemIdentifier()), py::bytes(h.GeneratingSoftware()),
+                                      h.creation_day, h.creation_year, h.PointOffset(), h.VlrCount(),
+                                      h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(), h.max, h.min,
+                                      h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return, h.IsCopc());
             },
             [](const py::tuple &t) { // __setstate__
                 if (t.size() != 20)
-- 
2.43.0


From 6b5e78b2b2749d08fe2bc576e02d3499d875831b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 37/41] fix: a chunk size below one is reported instead of
 skipping every node

---
 python/copclib/mp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/copclib/mp/utils.py b/python/copclib/mp/utils.py
index 71cf746..eea9889 100644
--- a/python/copclib/mp/utils.py
+++ b/python/copclib/mp/utils.py
@@ -1,4 +1,6 @@
 def chunks(lst, n):
     """Yield successive n-sized chunks from lst."""
+    if n < 1:
+        raise ValueError(f"The chunk size should be at least 1, not {n}!")
     for i in range(0, len(lst), n):
         yield lst[i : i + n]
-- 
2.43.0


From 6dda1f0065e87d814769f81d4b8ccb484a001cb0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:33 +0000
Subject: [PATCH 38/41] fix: items assigned to Points keep its format and
 record length

---
 python/bindings.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index e194f14..3863d79 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -289,6 +289,13 @@ PYBIND11_MODULE(_core, m)
         return i;
     };
 
+    // Points only holds points of its own format and record length
+    auto check_layout = [](const las::Points &s, const int8_t &point_format_id, const uint32_t &point_record_length)
+    {
+        if (point_format_id != s.PointFormatId() || point_record_length != s.PointRecordLength())
+            throw std::runtime_error("New points must be of same format and byte_size.");
+    };
+
     py::class_<las::Points>(m, "Points")
         .def(py::init<const uint8_t &, const uint16_t &>(),
              py::arg("point_format_id"), py::arg("eb_byte_size") = 0)
@@ -333,8 +340,9 @@ PYBIND11_MODULE(_core, m)
                  return s[(SizeType)i];
              })
         .def("__setitem__",
-             [wrap_i](las::Points &s, DiffType i, std::shared_ptr<las::Point> v) {
+             [wrap_i, check_layout](las::Points &s, DiffType i, std::shared_ptr<las::Point> v) {
                  i = wrap_i(i, s.Size());
+                 check_layout(s, v->PointFormatId(), v->PointRecordLength());
                  s[(SizeType)i] = std::move(v);
              })
         .def("__len__", &las::Points::Size)
@@ -364,13 +372,14 @@ PYBIND11_MODULE(_core, m)
                  return seq;
              })
         .def("__setitem__",
-             [](las::Points &s, const py::slice &slice, const las::Points &value) {
+             [check_layout](las::Points &s, const py::slice &slice, const las::Points &value) {
                  size_t start = 0, stop = 0, step = 0, slicelength = 0;
                  if (!slice.compute(s.Size(), &start, &stop, &step, &slicelength))
                      throw py::error_already_set();
 
                  if (slicelength != value.Size())
                      throw std::runtime_error("Left and right hand size of slice assignment have different sizes!");
+                 check_layout(s, value.PointFormatId(), value.PointRecordLength());
 
                  for (size_t i = 0; i < slicelength; ++i)
                  {
-- 
2.43.0


From 19e992739738e95333cb2dad551211b7e76d3d62 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:33 +0000
Subject: [PATCH 39/41] fix: empty slices of Points

---
 python/bindings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 3863d79..dfe0e33 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -368,7 +368,8 @@ PYBIND11_MODULE(_core, m)
                      start += step;
                  }
 
-                 auto *seq = new las::Points(new_points);
+                 auto *seq = new las::Points(s.PointFormatId(), s.EbByteSize());
+                 seq->AddPoints(new_points);
                  return seq;
              })
         .def("__setitem__",
-- 
2.43.0


From dacfe66f822ce2de6e0303b972d859f84a91df6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:33 +0000
Subject: [PATCH 40/41] fix: slices of Points can be assigned from the same
 Points

---
 python/bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index dfe0e33..2939c78 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -373,7 +373,7 @@ PYBIND11_MODULE(_core, m)
                  return seq;
              })
         .def("__setitem__",
-             [check_layout](las::Points &s, const py::slice &slice, const las::Points &value) {
+             [check_layout](las::Points &s, const py::slice &slice, const las::Points value) {
                  size_t start = 0, stop = 0, step = 0, slicelength = 0;
                  if (!slice.compute(s.Size(), &start, &stop, &step, &slicelength))
                      throw py::error_already_set();
-- 
2.43.0


From ceba5274cf8c4e5cb3b8bb71319ce7a347c8690c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 41/41] fix: a refused chunk of more than 2 GiB left its points
 in the file

---
 cpp/src/io/laz_base_writer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index e3f637a..8fdeb73 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -114,6 +114,8 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
 {
     if (!open_)
         throw std::runtime_error("BaseWriter::WriteChunk: Writer is closed!");
+    if (compressed && in.size() > static_cast<size_t>((std::numeric_limits<int32_t>::max)()))
+        throw std::runtime_error("BaseWriter::WriteChunk: Chunk is too large!");
 
     auto startpos = static_cast<int64_t>(out_stream_.tellp());
     if (startpos <= 0)
-- 
2.43.0

