From b8333b8644da4c7a7e8812c27ea21281e91473e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 01/33] fix: write buffered frames from the frame buffer in
 ZarrStream::append

A frame completed from several append calls was written from the caller's
buffer instead of the frame buffer, its bytes were counted twice, the source
position was advanced twice, and it was never downsampled.
---
 src/streaming/zarr.stream.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 1f1f8cb..90e2925 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -445,30 +445,30 @@ ZarrStream::append(const void* data_, size_t nbytes)
             // ready to flush the frame buffer
             if (frame_buffer_offset_ == bytes_of_frame) {
                 const size_t bytes_written_this_frame =
-                  writers_[0]->write_frame({ data, bytes_of_frame });
+                  writers_[0]->write_frame(frame_buffer_);
                 if (bytes_written_this_frame == 0) {
                     break;
                 }
 
-                bytes_written += bytes_to_copy;
-                data += bytes_to_copy;
+                write_multiscale_frames_(frame_buffer_.data(),
+                                         bytes_written_this_frame);
                 frame_buffer_offset_ = 0;
             }
         } else if (bytes_remaining < bytes_of_frame) { // begin partial frame
-            memcpy(frame_buffer_.data(), data, bytes_remaining);
+            memcpy(frame_buffer_.data(), data + bytes_written, bytes_remaining);
             frame_buffer_offset_ = bytes_remaining;
             bytes_written += bytes_remaining;
         } else { // at least one full frame
+            const auto* frame = data + bytes_written;
             const size_t bytes_written_this_frame =
-              writers_[0]->write_frame({ data, bytes_of_frame });
+              writers_[0]->write_frame({ frame, bytes_of_frame });
             if (bytes_written_this_frame == 0) {
                 break;
             }
 
-            write_multiscale_frames_(data, bytes_written_this_frame);
+            write_multiscale_frames_(frame, bytes_written_this_frame);
 
             bytes_written += bytes_written_this_frame;
-            data += bytes_written_this_frame;
         }
     }
 
-- 
2.43.0


From 64f58993e8f19eafd80a0e40eaff30bb234a5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 02/33] fix: report directory and file creation failures before
 releasing the waiting thread

---
 src/streaming/sink.creator.cpp | 54 ++++++++++++++++------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1343c2..5d42719 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -266,37 +266,35 @@ zarr::SinkCreator::make_dirs_(std::queue<std::string>& dir_paths)
 
         EXPECT(thread_pool_->push_job(
                  [dirname, &latch, &all_successful](std::string& err) -> bool {
-                     if (dirname.empty()) {
-                         err = "Directory name must not be empty.";
-                         latch.count_down();
-                         all_successful.fetch_and(0);
-                         return false;
-                     }
-
-                     if (fs::is_directory(dirname)) {
-                         latch.count_down();
-                         return true;
-                     } else if (fs::exists(dirname)) {
-                         err =
-                           "'" + dirname + "' exists but is not a directory";
-                         latch.count_down();
-                         all_successful.fetch_and(0);
-                         return false;
-                     }
+                     bool success = false;
 
-                     if (all_successful) {
-                         std::error_code ec;
-                         if (!fs::create_directories(dirname, ec)) {
-                             err = "Failed to create directory '" + dirname +
-                                   "': " + ec.message();
-                             latch.count_down();
-                             all_successful.fetch_and(0);
-                             return false;
+                     try {
+                         if (dirname.empty()) {
+                             err = "Directory name must not be empty.";
+                         } else if (fs::is_directory(dirname)) {
+                             success = true;
+                         } else if (fs::exists(dirname)) {
+                             err = "'" + dirname +
+                                   "' exists but is not a directory";
+                         } else if (all_successful) {
+                             std::error_code ec;
+                             success = fs::create_directories(dirname, ec);
+                             if (!success) {
+                                 err = "Failed to create directory '" +
+                                       dirname + "': " + ec.message();
+                             }
                          }
+                     } catch (const std::exception& exc) {
+                         err = "Failed to create directory '" + dirname +
+                               "': " + exc.what();
                      }
 
+                     // the latch and the flag go out of scope once the latch
+                     // reaches zero, so it must be the last thing touched
+                     all_successful.fetch_and((char)success);
                      latch.count_down();
-                     return true;
+
+                     return success;
                  }),
                "Failed to push job to thread pool.");
 
@@ -344,8 +342,8 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
@@ -395,8 +393,8 @@ zarr::SinkCreator::make_files_(
                                "': " + exc.what();
                      }
 
-                     latch.count_down();
                      all_successful.fetch_and((char)success);
+                     latch.count_down();
 
                      return success;
                  }),
-- 
2.43.0


From 6384c2eb7f647f741f843f0e3798d10373aa24e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 03/33] fix: complete open shards and write array metadata when
 a stream is finalized

A stream stopped on a chunk boundary inside a shard, or before any frame,
left its shards without an index and its arrays without metadata; sinks still
open at finalization were dropped without being finalized.
---
 src/streaming/array.writer.cpp        | 20 +++++++++++++-------
 src/streaming/zarrv3.array.writer.cpp |  7 ++++---
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 0c7fd21..613d18f 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -395,23 +395,29 @@ zarr::ArrayWriter::compress_buffers_()
 void
 zarr::ArrayWriter::flush_()
 {
-    if (bytes_to_flush_ == 0) {
+    if (bytes_to_flush_ == 0 && !is_finalizing_) {
         return;
     }
 
     // compress buffers and write out
-    compress_buffers_();
-    CHECK(flush_impl_());
+    if (bytes_to_flush_ > 0) {
+        compress_buffers_();
+    }
 
-    const auto should_rollover = should_rollover_();
-    if (should_rollover) {
-        rollover_();
+    // when finalizing, open sinks must be completed even without new data
+    if (bytes_to_flush_ > 0 || !data_sinks_.empty()) {
+        CHECK(flush_impl_());
     }
 
-    if (should_rollover || is_finalizing_) {
+    if (should_rollover_() || is_finalizing_) {
+        rollover_();
         CHECK(write_array_metadata_());
     }
 
+    if (is_finalizing_) {
+        return;
+    }
+
     // reset buffers
     make_buffers_();
 
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index d687076..9785588 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -82,9 +82,9 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     const auto n_shards = config_.dimensions->number_of_shards();
     CHECK(data_sinks_.size() == n_shards);
 
-    // get shard indices for each chunk
+    // get shard indices for each chunk, unless there is nothing new to write
     std::vector<std::vector<size_t>> chunk_in_shards(n_shards);
-    for (auto i = 0; i < chunk_buffers_.size(); ++i) {
+    for (auto i = 0; bytes_to_flush_ > 0 && i < chunk_buffers_.size(); ++i) {
         const auto index = config_.dimensions->shard_index_for_chunk(i);
         chunk_in_shards[index].push_back(i);
     }
@@ -104,7 +104,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        write_table,
                                        &latch,
                                        this](std::string& err) {
-            bool success = false;
+            bool success = true;
 
             try {
                 for (const auto& chunk_idx : chunks) {
@@ -133,6 +133,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 }
             } catch (const std::exception& exc) {
                 err = "Failed to write chunk: " + std::string(exc.what());
+                success = false;
             }
 
             latch.count_down();
-- 
2.43.0


From c5745f55a7b3ef541b02b520c42eb474168a74a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 04/33] fix: give each chunk layer of a shard its own slots in
 the shard index

---
 src/streaming/zarrv3.array.writer.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 9785588..1699a52 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -89,6 +89,16 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
         chunk_in_shards[index].push_back(i);
     }
 
+    // chunks are numbered within a layer of chunks along the append dimension;
+    // find the first chunk of the current layer in its shard
+    const auto& dims = config_.dimensions;
+    const auto layer =
+      frames_written_ == 0
+        ? 0
+        : dims->chunk_lattice_index(frames_written_ - 1, 0) %
+            dims->final_dim().shard_size_chunks;
+    const auto layer_offset = layer * dims->number_of_chunks_in_memory();
+
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
     std::latch latch(n_shards);
@@ -102,6 +112,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        &chunk_table,
                                        file_offset,
                                        write_table,
+                                       layer_offset,
                                        &latch,
                                        this](std::string& err) {
             bool success = true;
@@ -117,7 +128,8 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                     }
 
                     const auto internal_idx =
-                      config_.dimensions->shard_internal_index(chunk_idx);
+                      config_.dimensions->shard_internal_index(layer_offset +
+                                                               chunk_idx);
                     chunk_table.at(2 * internal_idx) = *file_offset;
                     chunk_table.at(2 * internal_idx + 1) = chunk.size();
 
-- 
2.43.0


From d503b2f75cdc4bfd76c431b472f8aecc0a9586de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 05/33] fix: do not wrap around when computing chunk, shard and
 frame counts

Products and sums of 32-bit sizes wrapped around, so large chunk or shard
sizes lost data, divided by zero or wrote out of bounds.
---
 src/streaming/array.writer.cpp        | 19 ++++++++--------
 src/streaming/array.writer.hh         |  2 +-
 src/streaming/zarr.common.cpp         | 12 +++++++---
 src/streaming/zarr.dimension.cpp      | 32 +++++++++++++++++++++------
 src/streaming/zarrv3.array.writer.cpp |  4 ++--
 5 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 613d18f..702b493 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -26,7 +26,7 @@ zarr::downsample(const ArrayWriterConfig& config,
             downsampled_dims[i] = dim;
         } else {
             const uint32_t array_size_px =
-              (dim.array_size_px + (dim.array_size_px % 2)) / 2;
+              dim.array_size_px / 2 + (dim.array_size_px % 2);
 
             const uint32_t chunk_size_px =
               dim.array_size_px == 0
@@ -35,7 +35,8 @@ zarr::downsample(const ArrayWriterConfig& config,
 
             CHECK(chunk_size_px);
             const uint32_t n_chunks =
-              (array_size_px + chunk_size_px - 1) / chunk_size_px;
+              (static_cast<uint64_t>(array_size_px) + chunk_size_px - 1) /
+              chunk_size_px;
 
             const uint32_t shard_size_chunks =
               dim.array_size_px == 0
@@ -251,12 +252,12 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto& dimensions = config_.dimensions;
 
     const auto& x_dim = dimensions->width_dim();
-    const auto frame_cols = x_dim.array_size_px;
-    const auto tile_cols = x_dim.chunk_size_px;
+    const size_t frame_cols = x_dim.array_size_px;
+    const size_t tile_cols = x_dim.chunk_size_px;
 
     const auto& y_dim = dimensions->height_dim();
-    const auto frame_rows = y_dim.array_size_px;
-    const auto tile_rows = y_dim.chunk_size_px;
+    const size_t frame_rows = y_dim.array_size_px;
+    const size_t tile_rows = y_dim.chunk_size_px;
 
     if (tile_cols == 0 || tile_rows == 0) {
         return 0;
@@ -279,14 +280,14 @@ zarr::ArrayWriter::write_frame_to_chunks_(std::span<const std::byte> data)
     const auto chunk_offset =
       static_cast<long long>(dimensions->chunk_internal_offset(frame_id));
 
-    for (auto i = 0; i < n_tiles_y; ++i) {
+    for (size_t i = 0; i < n_tiles_y; ++i) {
         // TODO (aliddell): we can optimize this when tiles_per_frame_x_ is 1
-        for (auto j = 0; j < n_tiles_x; ++j) {
+        for (size_t j = 0; j < n_tiles_x; ++j) {
             const auto c = group_offset + i * n_tiles_x + j;
             auto& chunk = chunk_buffers_[c];
             auto chunk_it = chunk.begin() + chunk_offset;
 
-            for (auto k = 0; k < tile_rows; ++k) {
+            for (size_t k = 0; k < tile_rows; ++k) {
                 const auto frame_row = i * tile_rows + k;
                 if (frame_row < frame_rows) {
                     const auto frame_col = j * tile_cols;
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index 076b114..a05f8f8 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -72,7 +72,7 @@ class ArrayWriter
 
     /// Bookkeeping
     uint64_t bytes_to_flush_;
-    uint32_t frames_written_;
+    uint64_t frames_written_;
     uint32_t append_chunk_index_;
     bool is_finalizing_;
 
diff --git a/src/streaming/zarr.common.cpp b/src/streaming/zarr.common.cpp
index f70fde0..50bd413 100644
--- a/src/streaming/zarr.common.cpp
+++ b/src/streaming/zarr.common.cpp
@@ -3,6 +3,7 @@
 
 #include <stdexcept>
 #include <algorithm>
+#include <limits>
 
 std::string
 zarr::trim(std::string_view s)
@@ -68,7 +69,11 @@ zarr::bytes_of_frame(const ArrayDimensions& dims, ZarrDataType type)
 {
     const auto height = dims.height_dim().array_size_px;
     const auto width = dims.width_dim().array_size_px;
-    return bytes_of_type(type) * height * width;
+    const auto bytes_of_row = bytes_of_type(type) * width;
+    EXPECT(height == 0 ||
+             bytes_of_row <= std::numeric_limits<size_t>::max() / height,
+           "Frame size overflow.");
+    return bytes_of_row * height;
 }
 
 uint32_t
@@ -76,7 +81,8 @@ zarr::chunks_along_dimension(const ZarrDimension& dimension)
 {
     EXPECT(dimension.chunk_size_px > 0, "Invalid chunk size.");
 
-    return (dimension.array_size_px + dimension.chunk_size_px - 1) /
+    return (static_cast<uint64_t>(dimension.array_size_px) +
+            dimension.chunk_size_px - 1) /
            dimension.chunk_size_px;
 }
 
@@ -87,7 +93,7 @@ zarr::shards_along_dimension(const ZarrDimension& dimension)
         return 0;
     }
 
-    const auto shard_size = dimension.shard_size_chunks;
+    const uint64_t shard_size = dimension.shard_size_chunks;
     const auto n_chunks = chunks_along_dimension(dimension);
     return (n_chunks + shard_size - 1) / shard_size;
 }
diff --git a/src/streaming/zarr.dimension.cpp b/src/streaming/zarr.dimension.cpp
index 4629f70..913cfe6 100644
--- a/src/streaming/zarr.dimension.cpp
+++ b/src/streaming/zarr.dimension.cpp
@@ -2,6 +2,18 @@
 #include "macros.hh"
 #include "zarr.common.hh"
 
+#include <limits>
+
+namespace {
+/// Multiply @p a by @p b, throwing if the result exceeds @p limit.
+uint64_t
+checked_mul(uint64_t a, uint64_t b, uint64_t limit)
+{
+    EXPECT(b == 0 || a <= limit / b, "Array dimensions are too large.");
+    return a * b;
+}
+} // namespace
+
 ArrayDimensions::ArrayDimensions(std::vector<ZarrDimension>&& dims,
                                  ZarrDataType dtype)
   : dims_(std::move(dims))
@@ -49,7 +61,7 @@ ArrayDimensions::chunk_lattice_index(uint64_t frame_id,
 
     // the first dimension is a special case
     if (dim_index == 0) {
-        auto divisor = dims_.front().chunk_size_px;
+        uint64_t divisor = dims_.front().chunk_size_px;
         for (auto i = 1; i < ndims() - 2; ++i) {
             const auto& dim = dims_[i];
             divisor *= dim.array_size_px;
@@ -78,8 +90,7 @@ ArrayDimensions::tile_group_offset(uint64_t frame_id) const
     std::vector<size_t> strides(dims_.size(), 1);
     for (auto i = dims_.size() - 1; i > 0; --i) {
         const auto& dim = dims_[i];
-        const auto a = dim.array_size_px, c = dim.chunk_size_px;
-        strides[i - 1] = strides[i] * ((a + c - 1) / c);
+        strides[i - 1] = strides[i] * zarr::chunks_along_dimension(dim);
     }
 
     size_t offset = 0;
@@ -129,7 +140,9 @@ ArrayDimensions::number_of_chunks_in_memory() const
 {
     uint32_t n_chunks = 1;
     for (auto i = 1; i < ndims(); ++i) {
-        n_chunks *= zarr::chunks_along_dimension(dims_[i]);
+        n_chunks = checked_mul(n_chunks,
+                               zarr::chunks_along_dimension(dims_[i]),
+                               std::numeric_limits<uint32_t>::max());
     }
 
     return n_chunks;
@@ -140,7 +153,8 @@ ArrayDimensions::bytes_per_chunk() const
 {
     auto n_bytes = zarr::bytes_of_type(dtype_);
     for (const auto& d : dims_) {
-        n_bytes *= d.chunk_size_px;
+        n_bytes = checked_mul(
+          n_bytes, d.chunk_size_px, std::numeric_limits<size_t>::max());
     }
 
     return n_bytes;
@@ -152,7 +166,9 @@ ArrayDimensions::number_of_shards() const
     size_t n_shards = 1;
     for (auto i = 1; i < ndims(); ++i) {
         const auto& dim = dims_[i];
-        n_shards *= zarr::shards_along_dimension(dim);
+        n_shards = checked_mul(n_shards,
+                               zarr::shards_along_dimension(dim),
+                               std::numeric_limits<uint32_t>::max());
     }
 
     return n_shards;
@@ -163,7 +179,9 @@ ArrayDimensions::chunks_per_shard() const
 {
     size_t n_chunks = 1;
     for (const auto& dim : dims_) {
-        n_chunks *= dim.shard_size_chunks;
+        n_chunks = checked_mul(n_chunks,
+                               dim.shard_size_chunks,
+                               std::numeric_limits<uint32_t>::max());
     }
 
     return n_chunks;
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 1699a52..79a4e89 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -256,8 +256,8 @@ zarr::ZarrV3ArrayWriter::should_rollover_() const
 {
     const auto& dims = config_.dimensions;
     const auto& append_dim = dims->final_dim();
-    size_t frames_before_flush =
-      append_dim.chunk_size_px * append_dim.shard_size_chunks;
+    size_t frames_before_flush = append_dim.chunk_size_px;
+    frames_before_flush *= append_dim.shard_size_chunks;
     for (auto i = 1; i < dims->ndims() - 2; ++i) {
         frames_before_flush *= dims->at(i).array_size_px;
     }
-- 
2.43.0


From c65f7bd6edec74345dd9902f415bd2bb21af1452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 06/33] fix: stop adding resolution levels once nothing is left
 to downsample

---
 src/streaming/array.writer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 702b493..fd7e9ec 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -62,7 +62,9 @@ zarr::downsample(const ArrayWriterConfig& config,
     // copy the Blosc compression parameters
     downsampled_config.compression_params = config.compression_params;
 
-    // can we downsample downsampled_config?
+    // can we downsample downsampled_config? only if there is anything left to
+    // halve
+    bool can_shrink = false;
     for (auto i = 0; i < config.dimensions->ndims(); ++i) {
         // downsampling made the chunk size strictly smaller
         const auto& dim = config.dimensions->at(i);
@@ -71,9 +73,11 @@ zarr::downsample(const ArrayWriterConfig& config,
         if (dim.chunk_size_px > downsampled_dim.chunk_size_px) {
             return false;
         }
+
+        can_shrink |= dim.array_size_px > downsampled_dim.array_size_px;
     }
 
-    return true;
+    return can_shrink;
 }
 
 /// Writer
-- 
2.43.0


From 8e44af9da99208f2b70a7c994a54419bdbed6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 07/33] fix: compute multiscale frames from pixels of the
 stream's data type

scale_image read single bytes as pixels whatever the data type, and sums and
conversions overflowed at the extremes of a type. The scaled frames were raw
buffers released with the wrong type, and leaked between levels and on errors.
---
 src/streaming/zarr.stream.cpp | 133 ++++++++++++++++++++--------------
 src/streaming/zarr.stream.hh  |   3 +-
 2 files changed, 82 insertions(+), 54 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 90e2925..27f68d4 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -8,7 +8,9 @@
 
 #include <blosc.h>
 
+#include <cstring>
 #include <filesystem>
+#include <type_traits>
 
 #ifdef min
 #undef min
@@ -286,7 +288,43 @@ dimension_type_to_string(ZarrDimensionType type)
 }
 
 template<typename T>
-[[nodiscard]] std::byte*
+T
+load_pixel(const std::byte* src, size_t idx)
+{
+    T value; // frames given by the caller may not be aligned
+    memcpy(&value, src + idx * sizeof(T), sizeof(T));
+    return value;
+}
+
+template<typename T>
+T
+mean_of_two(T a, T b)
+{
+    if constexpr (std::is_integral_v<T> && sizeof(T) == 8) {
+        // a double can't represent every 64-bit integer
+        return a / 2 + b / 2 + (a % 2 + b % 2) / 2;
+    } else {
+        return static_cast<T>(0.5 * static_cast<double>(a) +
+                              0.5 * static_cast<double>(b));
+    }
+}
+
+template<typename T>
+T
+mean_of_four(T a, T b, T c, T d)
+{
+    if constexpr (std::is_integral_v<T> && sizeof(T) == 8) {
+        return a / 4 + b / 4 + c / 4 + d / 4 +
+               (a % 4 + b % 4 + c % 4 + d % 4) / 4;
+    } else {
+        return static_cast<T>(
+          0.25 * static_cast<double>(a) + 0.25 * static_cast<double>(b) +
+          0.25 * static_cast<double>(c) + 0.25 * static_cast<double>(d));
+    }
+}
+
+template<typename T>
+[[nodiscard]] std::vector<std::byte>
 scale_image(const std::byte* const src,
             size_t& bytes_of_src,
             size_t& width,
@@ -296,55 +334,50 @@ scale_image(const std::byte* const src,
 
     const size_t bytes_of_frame = width * height * sizeof(T);
     EXPECT(bytes_of_src >= bytes_of_frame,
-           "Expecting at least %zu bytes, got %zu",
+           "Expecting at least ",
            bytes_of_frame,
+           " bytes, got ",
            bytes_of_src);
 
     const int downscale = 2;
-    constexpr auto bytes_of_type = static_cast<double>(sizeof(T));
-    const double factor = 0.25;
 
-    const auto w_pad = static_cast<double>(width + (width % downscale));
-    const auto h_pad = static_cast<double>(height + (height % downscale));
+    const auto w_pad = width + (width % downscale);
+    const auto h_pad = height + (height % downscale);
 
     const auto size_downscaled =
-      static_cast<uint32_t>(w_pad * h_pad * factor * bytes_of_type);
-
-    auto* dst = new T[size_downscaled];
-    EXPECT(dst,
-           "Failed to allocate ",
-           size_downscaled,
-           " bytes for destination frame");
+      (w_pad / downscale) * (h_pad / downscale) * sizeof(T);
 
-    memset(dst, 0, size_downscaled);
+    std::vector<std::byte> dst(size_downscaled);
 
     size_t dst_idx = 0;
-    for (auto row = 0; row < height; row += downscale) {
+    for (size_t row = 0; row < height; row += downscale) {
         const bool pad_height = (row == height - 1 && height != h_pad);
 
-        for (auto col = 0; col < width; col += downscale) {
+        for (size_t col = 0; col < width; col += downscale) {
             size_t src_idx = row * width + col;
             const bool pad_width = (col == width - 1 && width != w_pad);
 
-            auto here = static_cast<double>(src[src_idx]);
-            auto right = static_cast<double>(
-              src[src_idx + (1 - static_cast<int>(pad_width))]);
-            auto down = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height))]);
-            auto diag = static_cast<double>(
-              src[src_idx + width * (1 - static_cast<int>(pad_height)) +
-                  (1 - static_cast<int>(pad_width))]);
-
-            dst[dst_idx++] =
-              static_cast<T>(factor * (here + right + down + diag));
+            const auto here = load_pixel<T>(src, src_idx);
+            const auto right = load_pixel<T>(
+              src, src_idx + (1 - static_cast<int>(pad_width)));
+            const auto down = load_pixel<T>(
+              src, src_idx + width * (1 - static_cast<int>(pad_height)));
+            const auto diag = load_pixel<T>(
+              src,
+              src_idx + width * (1 - static_cast<int>(pad_height)) +
+                (1 - static_cast<int>(pad_width)));
+
+            const auto mean = mean_of_four<T>(here, right, down, diag);
+            memcpy(dst.data() + dst_idx, &mean, sizeof(T));
+            dst_idx += sizeof(T);
         }
     }
 
     bytes_of_src = size_downscaled;
-    width = static_cast<size_t>(w_pad) / 2;
-    height = static_cast<size_t>(h_pad) / 2;
+    width = w_pad / downscale;
+    height = h_pad / downscale;
 
-    return reinterpret_cast<std::byte*>(dst);
+    return dst;
 }
 
 template<typename T>
@@ -357,16 +390,17 @@ average_two_frames(void* dst_,
     CHECK(dst_);
     CHECK(src_);
     EXPECT(bytes_of_dst == bytes_of_src,
-           "Expecting %zu bytes in destination, got %zu",
+           "Expecting ",
            bytes_of_src,
+           " bytes in destination, got ",
            bytes_of_dst);
 
     T* dst = static_cast<T*>(dst_);
     const T* src = static_cast<const T*>(src_);
 
     const auto num_pixels = bytes_of_src / sizeof(T);
-    for (auto i = 0; i < num_pixels; ++i) {
-        dst[i] = static_cast<T>(0.5 * (dst[i] + src[i]));
+    for (size_t i = 0; i < num_pixels; ++i) {
+        dst[i] = mean_of_two<T>(dst[i], src[i]);
     }
 }
 } // namespace
@@ -874,7 +908,9 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
         return;
     }
 
-    std::function<std::byte*(const std::byte*, size_t&, size_t&, size_t&)> scale;
+    std::function<std::vector<std::byte>(
+      const std::byte*, size_t&, size_t&, size_t&)>
+      scale;
     std::function<void(void*, size_t, const void*, size_t)> average2;
 
     switch (dtype_) {
@@ -926,7 +962,7 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
     size_t frame_width = dimensions_->width_dim().array_size_px;
     size_t frame_height = dimensions_->height_dim().array_size_px;
 
-    std::byte* dst;
+    std::vector<std::byte> dst, src; // src keeps the frame at data alive
     for (auto i = 1; i < writers_.size(); ++i) {
         dst = scale(data, bytes_of_data, frame_width, frame_height);
 
@@ -934,25 +970,22 @@ ZarrStream_s::write_multiscale_frames_(const std::byte* data,
         // frame_width and frame_height are now the new dimensions
 
         if (scaled_frames_[i]) {
-            average2(dst, bytes_of_data, *scaled_frames_[i], bytes_of_data);
-            std::span frame_data{ reinterpret_cast<const std::byte*>(dst),
-                                  bytes_of_data };
-            EXPECT(writers_[i]->write_frame(frame_data),
-                   "Failed to write frame to writer %zu",
+            average2(dst.data(),
+                     bytes_of_data,
+                     scaled_frames_[i]->data(),
+                     scaled_frames_[i]->size());
+            EXPECT(writers_[i]->write_frame(dst),
+                   "Failed to write frame to writer ",
                    i);
 
             // clean up this LOD
-            delete[] *scaled_frames_[i];
             scaled_frames_[i].reset();
 
             // set up for next iteration
-            if (i + 1 < writers_.size()) {
-                data = dst;
-            } else {
-                delete[] dst;
-            }
+            src = std::move(dst);
+            data = src.data();
         } else {
-            scaled_frames_[i] = dst;
+            scaled_frames_[i] = std::move(dst);
             break;
         }
     }
@@ -990,11 +1023,5 @@ finalize_stream(struct ZarrStream_s* stream)
     stream->writers_.clear(); // flush before shutting down thread pool
     stream->thread_pool_->await_stop();
 
-    for (auto& [_, frame] : stream->scaled_frames_) {
-        if (frame) {
-            delete[] *frame;
-        }
-    }
-
     return true;
 }
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index d359391..1182fcb 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -60,7 +60,8 @@ struct ZarrStream_s
     std::unordered_map<std::string, std::unique_ptr<zarr::Sink>>
       metadata_sinks_;
 
-    std::unordered_map<size_t, std::optional<std::byte*>> scaled_frames_;
+    std::unordered_map<size_t, std::optional<std::vector<std::byte>>>
+      scaled_frames_;
 
     bool is_s3_acquisition_() const;
     bool is_compressed_acquisition_() const;
-- 
2.43.0


From c57c1785d70f9e266446c3af5ac16bf2e313fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 08/33] fix: report failures to open, write or flush a file

FileSink ignored the state of its stream, so data that could not be written
was dropped silently. Writes now reach the file before they are acknowledged.
---
 src/streaming/file.sink.cpp    | 9 ++++++---
 src/streaming/sink.creator.cpp | 8 +++++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/streaming/file.sink.cpp b/src/streaming/file.sink.cpp
index 312d90c..03acfd4 100644
--- a/src/streaming/file.sink.cpp
+++ b/src/streaming/file.sink.cpp
@@ -1,12 +1,14 @@
 #include "file.sink.hh"
+#include "macros.hh"
 
 #include <filesystem>
 
 namespace fs = std::filesystem;
 
 zarr::FileSink::FileSink(std::string_view filename)
-: file_(filename.data(), std::ios::binary | std::ios::trunc)
+: file_(std::string(filename), std::ios::binary | std::ios::trunc)
 {
+    EXPECT(file_, "Failed to open file '", filename, "'");
 }
 
 bool
@@ -19,12 +21,13 @@ zarr::FileSink::write(size_t offset, std::span<const std::byte> data)
 
     file_.seekp(offset);
     file_.write(reinterpret_cast<const char*>(data.data()), bytes_of_buf);
-    return true;
+    file_.flush();
+    return file_.good();
 }
 
 bool
 zarr::FileSink::flush_()
 {
     file_.flush();
-    return true;
+    return file_.good();
 }
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 5d42719..fe2da09 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -42,7 +42,13 @@ zarr::SinkCreator::make_sink(std::string_view file_path)
         }
     }
 
-    return std::make_unique<FileSink>(file_path);
+    try {
+        return std::make_unique<FileSink>(file_path);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Failed to create file '", file_path, "': ", exc.what());
+    }
+
+    return nullptr;
 }
 
 std::unique_ptr<zarr::Sink>
-- 
2.43.0


From c8bb86625451f4cc358edc3d20bfcd2d9a587fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 09/33] fix: fail the append whose chunks could not be
 compressed or written

Failed compression and write jobs were only noticed by a later append, if at
all; a chunk for which Blosc returned an error was silently lost.
---
 src/streaming/array.writer.cpp        | 13 +++++++++----
 src/streaming/array.writer.hh         |  2 +-
 src/streaming/zarrv2.array.writer.cpp |  7 +++++--
 src/streaming/zarrv3.array.writer.cpp | 11 +++++++++++
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index fd7e9ec..5cfa50c 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -341,11 +341,11 @@ zarr::ArrayWriter::should_flush_() const
     return frames_written_ % frames_before_flush == 0;
 }
 
-void
+bool
 zarr::ArrayWriter::compress_buffers_()
 {
     if (!config_.compression_params.has_value()) {
-        return;
+        return true;
     }
 
     LOG_DEBUG("Compressing");
@@ -354,10 +354,11 @@ zarr::ArrayWriter::compress_buffers_()
     const auto bytes_per_px = bytes_of_type(config_.dtype);
 
     std::scoped_lock lock(buffers_mutex_);
+    std::atomic<char> all_successful = 1;
     std::latch latch(chunk_buffers_.size());
     for (auto& chunk : chunk_buffers_) {
         EXPECT(thread_pool_->push_job(
-                 [&params, buf = &chunk, bytes_per_px, &latch](
+                 [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
                    std::string& err) -> bool {
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
@@ -378,6 +379,7 @@ zarr::ArrayWriter::compress_buffers_()
                                               0 /* blocksize - 0:automatic */,
                                               1);
 
+                         EXPECT(nb > 0, "Blosc returned ", nb);
                          tmp.resize(nb);
                          buf->swap(tmp);
 
@@ -386,6 +388,7 @@ zarr::ArrayWriter::compress_buffers_()
                          err = "Failed to compress chunk: " +
                                std::string(exc.what());
                      }
+                     all_successful.fetch_and((char)success);
                      latch.count_down();
 
                      return success;
@@ -395,6 +398,8 @@ zarr::ArrayWriter::compress_buffers_()
 
     // wait for all threads to finish
     latch.wait();
+
+    return (bool)all_successful;
 }
 
 void
@@ -406,7 +411,7 @@ zarr::ArrayWriter::flush_()
 
     // compress buffers and write out
     if (bytes_to_flush_ > 0) {
-        compress_buffers_();
+        CHECK(compress_buffers_());
     }
 
     // when finalizing, open sinks must be completed even without new data
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index a05f8f8..d613a08 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -90,7 +90,7 @@ class ArrayWriter
     virtual bool should_rollover_() const = 0;
 
     size_t write_frame_to_chunks_(std::span<const std::byte> data);
-    void compress_buffers_();
+    [[nodiscard]] bool compress_buffers_();
 
     void flush_();
     [[nodiscard]] virtual bool flush_impl_() = 0;
diff --git a/src/streaming/zarrv2.array.writer.cpp b/src/streaming/zarrv2.array.writer.cpp
index 8b620ca..5da7634 100644
--- a/src/streaming/zarrv2.array.writer.cpp
+++ b/src/streaming/zarrv2.array.writer.cpp
@@ -83,6 +83,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
 
     CHECK(data_sinks_.size() == chunk_buffers_.size());
 
+    std::atomic<char> all_successful = 1;
     std::latch latch(chunk_buffers_.size());
     {
         std::scoped_lock lock(buffers_mutex_);
@@ -92,7 +93,8 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                      std::move([&sink = data_sinks_.at(i),
                                 data_ = chunk.data(),
                                 size = chunk.size(),
-                                &latch](std::string& err) -> bool {
+                                &latch,
+                                &all_successful](std::string& err) -> bool {
                          bool success = false;
                          try {
                              std::span data{
@@ -105,6 +107,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
                                    std::string(exc.what());
                          }
 
+                         all_successful.fetch_and((char)success);
                          latch.count_down();
                          return success;
                      })),
@@ -115,7 +118,7 @@ zarr::ZarrV2ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
-    return true;
+    return (bool)all_successful;
 }
 
 bool
diff --git a/src/streaming/zarrv3.array.writer.cpp b/src/streaming/zarrv3.array.writer.cpp
index 79a4e89..b980899 100644
--- a/src/streaming/zarrv3.array.writer.cpp
+++ b/src/streaming/zarrv3.array.writer.cpp
@@ -101,6 +101,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
 
     // write out chunks to shards
     auto write_table = is_finalizing_ || should_rollover_();
+    std::atomic<char> all_successful = 1;
     std::latch latch(n_shards);
     for (auto i = 0; i < n_shards; ++i) {
         const auto& chunks = chunk_in_shards.at(i);
@@ -114,6 +115,7 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                                        write_table,
                                        layer_offset,
                                        &latch,
+                                       &all_successful,
                                        this](std::string& err) {
             bool success = true;
 
@@ -148,6 +150,11 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
                 success = false;
             }
 
+            if (!success && err.empty()) {
+                err = "Failed to write chunk";
+            }
+
+            all_successful.fetch_and((char)success);
             latch.count_down();
             return success;
         }),
@@ -157,6 +164,10 @@ zarr::ZarrV3ArrayWriter::flush_impl_()
     // wait for all threads to finish
     latch.wait();
 
+    if (!all_successful) {
+        return false;
+    }
+
     // reset shard tables and file offsets
     if (write_table) {
         for (auto& table : shard_tables_) {
-- 
2.43.0


From 9eb6f3ec3bce72059cb2ec19a90d01d6e7c730ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 10/33] fix: keep a stream's error without a data race and
 whatever the log level

Worker threads set the error while the caller reads it, and an error without
a message (all of them, with logging off) was forgotten.
---
 src/streaming/zarr.stream.cpp | 40 ++++++++++++++++++++++++++---------
 src/streaming/zarr.stream.hh  | 16 ++++++++++++++
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 27f68d4..2803fbe 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -427,10 +427,10 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
       zarr::bytes_of_frame(*dimensions_, static_cast<ZarrDataType>(dtype_)));
 
     // create the data store
-    EXPECT(create_store_(), error_);
+    EXPECT(create_store_(), get_error_());
 
     // allocate writers
-    EXPECT(create_writers_(), error_);
+    EXPECT(create_writers_(), get_error_());
 
     // allocate multiscale frame placeholders
     if (multiscale_) {
@@ -438,23 +438,35 @@ ZarrStream::ZarrStream_s(struct ZarrStreamSettings_s* settings)
     }
 
     // allocate metadata sinks
-    EXPECT(create_metadata_sinks_(), error_);
+    EXPECT(create_metadata_sinks_(), get_error_());
 
     // write base metadata
-    EXPECT(write_base_metadata_(), error_);
+    EXPECT(write_base_metadata_(), get_error_());
 
     // write group metadata
-    EXPECT(write_group_metadata_(), error_);
+    EXPECT(write_group_metadata_(), get_error_());
 
     // write external metadata
-    EXPECT(write_external_metadata_(), error_);
+    EXPECT(write_external_metadata_(), get_error_());
 }
 
 size_t
-ZarrStream::append(const void* data_, size_t nbytes)
+ZarrStream::append(const void* data, size_t nbytes)
 {
-    EXPECT(error_.empty(), "Cannot append data: ", error_.c_str());
+    const auto error = get_error_();
+    EXPECT(error.empty(), "Cannot append data: ", error);
 
+    try {
+        return append_(data, nbytes);
+    } catch (const std::exception& exc) {
+        set_error_(exc.what());
+        throw;
+    }
+}
+
+size_t
+ZarrStream::append_(const void* data_, size_t nbytes)
+{
     if (0 == nbytes) {
         return 0;
     }
@@ -570,7 +582,15 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 void
 ZarrStream_s::set_error_(const std::string& msg)
 {
-    error_ = msg;
+    std::scoped_lock lock(error_mutex_);
+    error_ = msg.empty() ? "Unknown error" : msg;
+}
+
+std::string
+ZarrStream_s::get_error_() const
+{
+    std::scoped_lock lock(error_mutex_);
+    return error_;
 }
 
 bool
@@ -1000,7 +1020,7 @@ finalize_stream(struct ZarrStream_s* stream)
     }
 
     if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->error_);
+        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
         return false;
     }
 
diff --git a/src/streaming/zarr.stream.hh b/src/streaming/zarr.stream.hh
index 1182fcb..e9eacb2 100644
--- a/src/streaming/zarr.stream.hh
+++ b/src/streaming/zarr.stream.hh
@@ -10,6 +10,7 @@
 
 #include <cstddef> // size_t
 #include <memory>  // unique_ptr
+#include <mutex>
 #include <optional>
 
 struct ZarrStream_s
@@ -40,6 +41,7 @@ struct ZarrStream_s
     };
 
     std::string error_; // error message. If nonempty, an error occurred.
+    mutable std::mutex error_mutex_; // errors are set by worker threads
 
     ZarrVersion version_;
     std::string store_path_;
@@ -78,6 +80,20 @@ struct ZarrStream_s
      */
     void set_error_(const std::string& msg);
 
+    /**
+     * @brief Get the error message.
+     * @return The error message, empty if no error occurred.
+     */
+    std::string get_error_() const;
+
+    /**
+     * @brief Append data to the stream, without keeping track of errors.
+     * @param data The data to append.
+     * @param nbytes The number of bytes to append.
+     * @return The number of bytes appended.
+     */
+    size_t append_(const void* data, size_t nbytes);
+
     /** @brief Create the data store. */
     [[nodiscard]] bool create_store_();
 
-- 
2.43.0


From 9ae3b3fe6ebea0d03df9e38a591dfe9621e66d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 11/33] fix: reject null pointers in dimension and S3 settings

---
 src/streaming/zarr.stream.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 2803fbe..dd6fce8 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -34,6 +34,13 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
+    if (settings->endpoint == nullptr || settings->bucket_name == nullptr ||
+        settings->access_key_id == nullptr ||
+        settings->secret_access_key == nullptr) {
+        LOG_ERROR("Null pointer in S3 settings");
+        return false;
+    }
+
     if (zarr::is_empty_string(settings->endpoint, "S3 endpoint is empty")) {
         return false;
     }
@@ -161,6 +168,11 @@ validate_dimension(const ZarrDimensionProperties* dimension,
                    ZarrVersion version,
                    bool is_append)
 {
+    if (dimension->name == nullptr) {
+        LOG_ERROR("Null pointer: dimension name");
+        return false;
+    }
+
     if (zarr::is_empty_string(dimension->name, "Dimension name is empty")) {
         return false;
     }
-- 
2.43.0


From abfb20f30966520cf73306f265ba569986c52079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 12/33] fix: store raw chunks when the compressor is None

---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index dd6fce8..15cebb5 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -566,7 +566,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
         };
     }
 
-    if (is_compressed_acquisition(settings)) {
+    if (is_compressed_acquisition(settings) &&
+        settings->compression_settings->compressor != ZarrCompressor_None) {
         compression_settings_ = {
             .compressor = settings->compression_settings->compressor,
             .codec = settings->compression_settings->codec,
-- 
2.43.0


From 581e53677d524e66001b8c9a412ce4d171a2b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 13/33] fix: validate the store path that is actually used

---
 src/streaming/zarr.stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 15cebb5..cf0634f 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -218,7 +218,8 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         LOG_ERROR("Null pointer: store_path");
         return false;
     }
-    std::string_view store_path(settings->store_path);
+    // surrounding blanks are not part of the path
+    const std::string store_path = zarr::trim(settings->store_path);
 
     // we require the store path (root of the dataset) to be nonempty
     if (store_path.empty()) {
-- 
2.43.0


From 8d32717e444e8753f21b330f79340cb62e5fb7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 14/33] fix: write valid JSON to 0/.zattrs and acquire.json
 when there is nothing to store

---
 src/streaming/zarr.stream.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index cf0634f..2b03732 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -553,7 +553,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
     store_path_ = zarr::trim(settings->store_path);
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
-    } else {
+    }
+    if (custom_metadata_.empty()) {
         custom_metadata_ = "{}";
     }
 
@@ -790,6 +791,17 @@ ZarrStream_s::write_base_metadata_()
         return false;
     }
 
+    if (version_ == 2) { // no attributes of the array itself
+        const std::string attrs_str = nlohmann::json::object().dump(4);
+        if (!metadata_sinks_.at("0/.zattrs")
+               ->write(0,
+                       { reinterpret_cast<const std::byte*>(attrs_str.data()),
+                         attrs_str.size() })) {
+            set_error_("Error writing array attributes");
+            return false;
+        }
+    }
+
     return true;
 }
 
-- 
2.43.0


From 87380a2536a0790c6f1434d6825a5c075251f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 15/33] fix: zero-initialize the dimensions allocated for a
 settings struct

---
 src/streaming/acquire.zarr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 3e9b183..2d31092 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -106,7 +106,7 @@ extern "C"
         ZarrDimensionProperties* dimensions = nullptr;
 
         try {
-            dimensions = new ZarrDimensionProperties[dimension_count];
+            dimensions = new ZarrDimensionProperties[dimension_count]();
         } catch (const std::bad_alloc&) {
             LOG_ERROR("Failed to allocate memory for dimensions");
             return ZarrStatusCode_OutOfMemory;
-- 
2.43.0


From 8624c6548c30931a27a0485647a60016aeb91be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 16/33] fix: report failure to allocate chunk buffers instead
 of terminating the process

---
 src/streaming/array.writer.cpp | 2 +-
 src/streaming/array.writer.hh  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 5cfa50c..106751f 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -232,7 +232,7 @@ zarr::ArrayWriter::make_metadata_sink_()
 }
 
 void
-zarr::ArrayWriter::make_buffers_() noexcept
+zarr::ArrayWriter::make_buffers_()
 {
     LOG_DEBUG("Creating chunk buffers");
 
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index d613a08..c81aecb 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -84,7 +84,7 @@ class ArrayWriter
 
     [[nodiscard]] bool make_data_sinks_();
     [[nodiscard]] bool make_metadata_sink_();
-    void make_buffers_() noexcept;
+    void make_buffers_();
 
     bool should_flush_() const;
     virtual bool should_rollover_() const = 0;
-- 
2.43.0


From 94749c778e5559e175460b835be3bee0c12d4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 17/33] fix: release the stream and keep exceptions inside when
 finalization fails

---
 src/streaming/acquire.zarr.cpp |  2 +-
 src/streaming/zarr.stream.cpp  | 39 +++++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/streaming/acquire.zarr.cpp b/src/streaming/acquire.zarr.cpp
index 2d31092..3904be9 100644
--- a/src/streaming/acquire.zarr.cpp
+++ b/src/streaming/acquire.zarr.cpp
@@ -152,7 +152,7 @@ extern "C"
     void ZarrStream_destroy(struct ZarrStream_s* stream)
     {
         if (!finalize_stream(stream)) {
-            return;
+            LOG_ERROR("Failed to finalize Zarr stream");
         }
 
         delete stream;
diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 2b03732..2285769 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -1045,29 +1045,38 @@ finalize_stream(struct ZarrStream_s* stream)
         return true;
     }
 
-    if (!stream->write_group_metadata_()) {
-        LOG_ERROR("Error finalizing Zarr stream: ", stream->get_error_());
-        return false;
-    }
-
-    for (auto& [sink_name, sink] : stream->metadata_sinks_) {
-        if (!finalize_sink(std::move(sink))) {
+    // carry on after a failure, to write as much as possible
+    bool success = true;
+    const auto attempt = [&success](const auto& step, const auto& what) {
+        try {
+            if (step()) {
+                return;
+            }
+            LOG_ERROR("Error finalizing Zarr stream. Failed to write ", what);
+        } catch (const std::exception& exc) {
             LOG_ERROR("Error finalizing Zarr stream. Failed to write ",
-                      sink_name);
-            return false;
+                      what,
+                      ": ",
+                      exc.what());
         }
+        success = false;
+    };
+
+    attempt([&] { return stream->write_group_metadata_(); },
+            "group metadata");
+
+    for (auto& [sink_name, sink] : stream->metadata_sinks_) {
+        attempt([&sink = sink] { return finalize_sink(std::move(sink)); },
+                sink_name);
     }
     stream->metadata_sinks_.clear();
 
     for (auto i = 0; i < stream->writers_.size(); ++i) {
-        if (!finalize_array(std::move(stream->writers_[i]))) {
-            LOG_ERROR("Error finalizing Zarr stream. Failed to write array ",
-                      i);
-            return false;
-        }
+        attempt([&] { return finalize_array(std::move(stream->writers_[i])); },
+                "array " + std::to_string(i));
     }
     stream->writers_.clear(); // flush before shutting down thread pool
     stream->thread_pool_->await_stop();
 
-    return true;
+    return success;
 }
-- 
2.43.0


From c2ba358e4bd7f7bbdf8de65a1dd4a71af091d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 18/33] fix: return S3 connections to the pool when a request
 throws

---
 src/streaming/s3.sink.cpp      | 23 +++++++++++++++++------
 src/streaming/sink.creator.cpp |  7 ++++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 81150ab..21ba679 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -128,11 +128,17 @@ zarr::S3Sink::is_multipart_upload_() const
 void
 zarr::S3Sink::create_multipart_upload_()
 {
-    multipart_upload_ = MultiPartUpload{};
-
     auto connection = connection_pool_->get_connection();
-    multipart_upload_->upload_id =
-      connection->create_multipart_object(bucket_name_, object_key_);
+
+    MultiPartUpload upload;
+    try {
+        upload.upload_id =
+          connection->create_multipart_object(bucket_name_, object_key_);
+    } catch (const std::exception&) {
+        connection_pool_->return_connection(std::move(connection));
+        throw;
+    }
+    multipart_upload_ = std::move(upload);
 
     connection_pool_->return_connection(std::move(connection));
 }
@@ -194,8 +200,13 @@ zarr::S3Sink::finalize_multipart_upload_()
     const auto& upload_id = multipart_upload_->upload_id;
     const auto& parts = multipart_upload_->parts;
 
-    bool retval = connection->complete_multipart_object(
-      bucket_name_, object_key_, upload_id, parts);
+    bool retval = false;
+    try {
+        retval = connection->complete_multipart_object(
+          bucket_name_, object_key_, upload_id, parts);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Error: ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(connection));
 
diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index fe2da09..d1d5a60 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -419,7 +419,12 @@ zarr::SinkCreator::bucket_exists_(std::string_view bucket_name)
     EXPECT(connection_pool_, "S3 connection pool not provided.");
 
     auto conn = connection_pool_->get_connection();
-    bool bucket_exists = conn->bucket_exists(bucket_name);
+    bool bucket_exists = false;
+    try {
+        bucket_exists = conn->bucket_exists(bucket_name);
+    } catch (const std::exception& exc) {
+        LOG_ERROR("Failed to look up bucket '", bucket_name, "': ", exc.what());
+    }
 
     connection_pool_->return_connection(std::move(conn));
 
-- 
2.43.0


From 6d71e1ff9274b69135106be2da5b42aa51bbdd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 19/33] fix: never complete a multipart upload from which a
 part is missing

---
 src/streaming/s3.sink.cpp | 14 ++++++++++++++
 src/streaming/s3.sink.hh  |  1 +
 2 files changed, 15 insertions(+)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index 21ba679..f3053df 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -22,6 +22,11 @@ zarr::S3Sink::S3Sink(std::string_view bucket_name,
 bool
 zarr::S3Sink::flush_()
 {
+    if (failed_) {
+        LOG_ERROR("Incomplete data for object ", object_key_);
+        return false;
+    }
+
     if (is_multipart_upload_()) {
         const auto& parts = multipart_upload_->parts;
         if (nbytes_buffered_ > 0 && !flush_part_()) {
@@ -56,6 +61,11 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
         return true;
     }
 
+    if (failed_) {
+        LOG_ERROR("Incomplete data for object ", object_key_);
+        return false;
+    }
+
     if (offset < nbytes_flushed_) {
         LOG_ERROR("Cannot write data at offset ",
                   offset,
@@ -150,6 +160,9 @@ zarr::S3Sink::flush_part_()
         return false;
     }
 
+    // until the part is known to be stored
+    failed_ = true;
+
     if (!is_multipart_upload_()) {
         create_multipart_upload_();
     }
@@ -180,6 +193,7 @@ zarr::S3Sink::flush_part_()
         parts.push_back(part);
 
         retval = true;
+        failed_ = false;
     } catch (const std::exception& exc) {
         LOG_ERROR("Error: ", exc.what());
     }
diff --git a/src/streaming/s3.sink.hh b/src/streaming/s3.sink.hh
index 49d2219..140eb55 100644
--- a/src/streaming/s3.sink.hh
+++ b/src/streaming/s3.sink.hh
@@ -40,6 +40,7 @@ class S3Sink : public Sink
     size_t nbytes_flushed_{ 0 };
 
     std::optional<MultiPartUpload> multipart_upload_;
+    bool failed_{ false }; // data was lost, the object must not be published
 
     /**
      * @brief Upload the object to S3.
-- 
2.43.0


From cbe256e2c80051965b65c1f682ea53b973a831d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 20/33] fix: fill gaps between writes to an S3 object with
 zeros

---
 src/streaming/s3.sink.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/streaming/s3.sink.cpp b/src/streaming/s3.sink.cpp
index f3053df..0f13cbc 100644
--- a/src/streaming/s3.sink.cpp
+++ b/src/streaming/s3.sink.cpp
@@ -73,6 +73,16 @@ zarr::S3Sink::write(size_t offset, std::span<const std::byte> data)
                   nbytes_flushed_);
         return false;
     }
+
+    // fill any gap with zeros, as a file would
+    for (auto end = nbytes_flushed_ + nbytes_buffered_; offset > end;
+         end = nbytes_flushed_ + nbytes_buffered_) {
+        const std::vector<std::byte> zeros(
+          std::min(offset - end, part_buffer_.size()));
+        if (!write(end, zeros)) {
+            return false;
+        }
+    }
     nbytes_buffered_ = offset - nbytes_flushed_;
 
     size_t bytes_of_data = data.size();
-- 
2.43.0


From d731c464ec8c548cb432c37f2ec2f403443c4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 21/33] fix: read and change the log level without a data race

---
 src/logger/logger.cpp | 2 +-
 src/logger/logger.hh  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logger/logger.cpp b/src/logger/logger.cpp
index 4f7b291..0569d37 100644
--- a/src/logger/logger.cpp
+++ b/src/logger/logger.cpp
@@ -4,7 +4,7 @@
 #include <string>
 #include <thread>
 
-LogLevel Logger::current_level_ = LogLevel_Info;
+std::atomic<LogLevel> Logger::current_level_ = LogLevel_Info;
 std::mutex Logger::log_mutex_{};
 
 void
diff --git a/src/logger/logger.hh b/src/logger/logger.hh
index 4efaaf0..33d9546 100644
--- a/src/logger/logger.hh
+++ b/src/logger/logger.hh
@@ -1,5 +1,6 @@
 #include "logger.types.h"
 
+#include <atomic>
 #include <filesystem>
 #include <iostream>
 #include <mutex>
@@ -61,7 +62,7 @@ class Logger
     }
 
   private:
-    static LogLevel current_level_;
+    static std::atomic<LogLevel> current_level_;
     static std::mutex log_mutex_;
 
     static void format_arg_(std::ostream& ss) {}; // base case
-- 
2.43.0


From de832b9998b8b88db563f0a35f29a568e7660aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 22/33] fix: do not terminate when the system refuses another
 worker thread

---
 src/streaming/thread.pool.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/streaming/thread.pool.cpp b/src/streaming/thread.pool.cpp
index aede31d..ea35407 100644
--- a/src/streaming/thread.pool.cpp
+++ b/src/streaming/thread.pool.cpp
@@ -1,6 +1,7 @@
 #include "thread.pool.hh"
 
 #include <algorithm>
+#include <system_error>
 
 zarr::ThreadPool::ThreadPool(unsigned int n_threads, ErrorCallback&& err)
   : error_handler_{ std::move(err) }
@@ -8,8 +9,16 @@ zarr::ThreadPool::ThreadPool(unsigned int n_threads, ErrorCallback&& err)
     const auto max_threads = std::max(std::thread::hardware_concurrency(), 1u);
     n_threads = std::clamp(n_threads, 1u, max_threads);
 
+    threads_.reserve(n_threads);
     for (auto i = 0; i < n_threads; ++i) {
-        threads_.emplace_back([this] { process_tasks_(); });
+        try {
+            threads_.emplace_back([this] { process_tasks_(); });
+        } catch (const std::system_error&) {
+            if (threads_.empty()) {
+                throw;
+            }
+            break; // make do with the threads we have
+        }
     }
 }
 
-- 
2.43.0


From a0c1de7e684e2b09dd5c19cb7603fef200db3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 23/33] fix: write all buffers at any offset in
 VectorizedFileWriter

Offsets beyond 2 GiB were truncated to int, and short or interrupted writes
and more buffers than one system call takes were failures.
---
 src/streaming/vectorized.file.writer.cpp | 57 +++++++++++++++++++-----
 1 file changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/streaming/vectorized.file.writer.cpp b/src/streaming/vectorized.file.writer.cpp
index 18b57f8..b2f038a 100644
--- a/src/streaming/vectorized.file.writer.cpp
+++ b/src/streaming/vectorized.file.writer.cpp
@@ -1,6 +1,9 @@
 #include "vectorized.file.writer.hh"
 #include "macros.hh"
 
+#include <algorithm>
+#include <cerrno>
+#include <climits>
 #include <cstring>
 
 namespace {
@@ -57,6 +60,12 @@ get_sector_size(const std::string& path)
     return bytes_per_sector;
 }
 #else
+#ifdef IOV_MAX
+constexpr size_t max_iovecs = IOV_MAX;
+#else
+constexpr size_t max_iovecs = 16; // guaranteed by POSIX
+#endif
+
 std::string
 get_last_error_as_string()
 {
@@ -183,20 +192,44 @@ zarr::VectorizedFileWriter::write_vectors(
         iov->iov_len = buffers[i].size();
     }
 
-    ssize_t total_bytes = 0;
-    for (const auto& buffer : buffers) {
-        total_bytes += static_cast<ssize_t>(buffer.size());
-    }
+    // the system may write less than asked for, and limits the number of
+    // buffers in one call
+    for (size_t first = 0; first < iovecs.size();) {
+        if (iovecs[first].iov_len == 0) {
+            ++first;
+            continue;
+        }
 
-    ssize_t bytes_written = pwritev(fd_,
-                                    iovecs.data(),
-                                    static_cast<int>(iovecs.size()),
-                                    static_cast<int>(offset));
+        const auto n_iovecs =
+          std::min<size_t>(iovecs.size() - first, max_iovecs);
+        ssize_t bytes_written = pwritev(fd_,
+                                        iovecs.data() + first,
+                                        static_cast<int>(n_iovecs),
+                                        static_cast<off_t>(offset));
 
-    if (bytes_written != total_bytes) {
-        auto error = get_last_error_as_string();
-        LOG_ERROR("Failed to write file: ", error);
-        retval = false;
+        if (bytes_written < 0 && errno == EINTR) {
+            continue;
+        }
+
+        if (bytes_written <= 0) {
+            auto error = get_last_error_as_string();
+            LOG_ERROR("Failed to write file: ", error);
+            retval = false;
+            break;
+        }
+
+        // skip what has been written
+        offset += bytes_written;
+        for (auto n = static_cast<size_t>(bytes_written); n > 0;) {
+            auto& iov = iovecs[first];
+            const auto n_skip = std::min(n, iov.iov_len);
+            iov.iov_base = static_cast<std::byte*>(iov.iov_base) + n_skip;
+            iov.iov_len -= n_skip;
+            n -= n_skip;
+            if (iov.iov_len == 0) {
+                ++first;
+            }
+        }
     }
 #endif
     return retval;
-- 
2.43.0


From df91fb8577bf619cf9e3e64653f7ad529dc20f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 24/33] fix: treat a reply without an etag as a failed
 multipart completion

---
 src/streaming/s3.connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/streaming/s3.connection.cpp b/src/streaming/s3.connection.cpp
index d4ea3f3..238b5d2 100644
--- a/src/streaming/s3.connection.cpp
+++ b/src/streaming/s3.connection.cpp
@@ -211,6 +211,16 @@ zarr::S3Connection::complete_multipart_object(
         return false;
     }
 
+    // the service may answer a failed completion with an OK status
+    if (response.etag.empty()) {
+        LOG_ERROR("Completing multipart object ",
+                  object_name,
+                  " in bucket ",
+                  bucket_name,
+                  " returned no etag");
+        return false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From 1f83cf43ffb4909043a6a8357eaef8c8d8589a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 25/33] fix: keep no sinks behind when one of them fails to
 finalize

---
 src/streaming/array.writer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 106751f..85b7a4e 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -438,12 +438,17 @@ zarr::ArrayWriter::flush_()
 void
 zarr::ArrayWriter::close_sinks_()
 {
+    // finalize every sink, and keep none, even if one fails
+    bool success = true;
     for (auto i = 0; i < data_sinks_.size(); ++i) {
-        EXPECT(finalize_sink(std::move(data_sinks_[i])),
-               "Failed to finalize sink ",
-               i);
+        if (!finalize_sink(std::move(data_sinks_[i]))) {
+            LOG_ERROR("Failed to finalize sink ", i);
+            success = false;
+        }
     }
     data_sinks_.clear();
+
+    EXPECT(success, "Failed to finalize sinks");
 }
 
 void
-- 
2.43.0


From 9abaa09cd333a1173a0a87814f8f8c8703be4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 26/33] fix: keep no data sinks when one of their files cannot
 be created

---
 src/streaming/sink.creator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index d1d5a60..1489415 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -358,6 +358,10 @@ zarr::SinkCreator::make_files_(std::queue<std::string>& file_paths,
 
     latch.wait();
 
+    if (!all_successful) {
+        sinks.clear(); // some of them are null
+    }
+
     return (bool)all_successful;
 }
 
-- 
2.43.0


From a488ba0d76613e2bda122fac81330ea404226537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 27/33] fix: reject negative enumerators in settings

---
 src/streaming/zarr.stream.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 2285769..e0d46c6 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -31,6 +31,14 @@ is_compressed_acquisition(const struct ZarrStreamSettings_s* settings)
     return nullptr != settings->compression_settings;
 }
 
+// values given by the caller may be negative, and an enum may promote to int
+template<typename Enum>
+bool
+is_out_of_range(Enum value, Enum count)
+{
+    return static_cast<uint32_t>(value) >= static_cast<uint32_t>(count);
+}
+
 [[nodiscard]] bool
 validate_s3_settings(const ZarrS3Settings* settings)
 {
@@ -99,12 +107,12 @@ validate_filesystem_store_path(std::string_view data_root)
 [[nodiscard]] bool
 validate_compression_settings(const ZarrCompressionSettings* settings)
 {
-    if (settings->compressor >= ZarrCompressorCount) {
+    if (is_out_of_range(settings->compressor, ZarrCompressorCount)) {
         LOG_ERROR("Invalid compressor: ", settings->compressor);
         return false;
     }
 
-    if (settings->codec >= ZarrCompressionCodecCount) {
+    if (is_out_of_range(settings->codec, ZarrCompressionCodecCount)) {
         LOG_ERROR("Invalid compression codec: ", settings->codec);
         return false;
     }
@@ -177,7 +185,7 @@ validate_dimension(const ZarrDimensionProperties* dimension,
         return false;
     }
 
-    if (dimension->type >= ZarrDimensionTypeCount) {
+    if (is_out_of_range(dimension->type, ZarrDimensionTypeCount)) {
         LOG_ERROR("Invalid dimension type: ", dimension->type);
         return false;
     }
@@ -234,7 +242,7 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
         return false;
     }
 
-    if (settings->data_type >= ZarrDataTypeCount) {
+    if (is_out_of_range(settings->data_type, ZarrDataTypeCount)) {
         LOG_ERROR("Invalid data type: ", settings->data_type);
         return false;
     }
-- 
2.43.0


From 03cf16e99060217175fa16fc29c452c5c1f135e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 28/33] fix: keep no data sinks when an S3 sink cannot be
 created

---
 src/streaming/sink.creator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/streaming/sink.creator.cpp b/src/streaming/sink.creator.cpp
index 1489415..b0e6389 100644
--- a/src/streaming/sink.creator.cpp
+++ b/src/streaming/sink.creator.cpp
@@ -453,13 +453,15 @@ zarr::SinkCreator::make_s3_objects_(std::string_view bucket_name,
         return false;
     }
 
+    // keep no sinks, rather than null ones, if one can't be created
     const auto n_objects = object_keys.size();
-    sinks.resize(n_objects);
+    std::vector<std::unique_ptr<Sink>> new_sinks(n_objects);
     for (auto i = 0; i < n_objects; ++i) {
-        sinks[i] = std::make_unique<S3Sink>(
+        new_sinks[i] = std::make_unique<S3Sink>(
           bucket_name, object_keys.front(), connection_pool_);
         object_keys.pop();
     }
+    sinks = std::move(new_sinks);
 
     return true;
 }
-- 
2.43.0


From 4ebd740ac10d8c0cdfa36ec23b42dcdb7604ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 29/33] fix: do not compress chunks twice when a failed flush
 is retried

---
 src/streaming/array.writer.cpp | 18 +++++++++++++++---
 src/streaming/array.writer.hh  |  1 +
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/streaming/array.writer.cpp b/src/streaming/array.writer.cpp
index 85b7a4e..255ac30 100644
--- a/src/streaming/array.writer.cpp
+++ b/src/streaming/array.writer.cpp
@@ -245,6 +245,7 @@ zarr::ArrayWriter::make_buffers_()
         buf.resize(nbytes);
         std::fill(buf.begin(), buf.end(), std::byte(0));
     }
+    chunk_is_compressed_.assign(n_chunks, 0);
 }
 
 size_t
@@ -356,10 +357,20 @@ zarr::ArrayWriter::compress_buffers_()
     std::scoped_lock lock(buffers_mutex_);
     std::atomic<char> all_successful = 1;
     std::latch latch(chunk_buffers_.size());
-    for (auto& chunk : chunk_buffers_) {
+    for (auto i = 0; i < chunk_buffers_.size(); ++i) {
+        // already done if an earlier attempt to flush failed
+        if (chunk_is_compressed_[i]) {
+            latch.count_down();
+            continue;
+        }
+
         EXPECT(thread_pool_->push_job(
-                 [&params, buf = &chunk, bytes_per_px, &latch, &all_successful](
-                   std::string& err) -> bool {
+                 [&params,
+                  buf = &chunk_buffers_[i],
+                  is_compressed = &chunk_is_compressed_[i],
+                  bytes_per_px,
+                  &latch,
+                  &all_successful](std::string& err) -> bool {
                      bool success = false;
                      const size_t bytes_of_chunk = buf->size();
 
@@ -382,6 +393,7 @@ zarr::ArrayWriter::compress_buffers_()
                          EXPECT(nb > 0, "Blosc returned ", nb);
                          tmp.resize(nb);
                          buf->swap(tmp);
+                         *is_compressed = 1;
 
                          success = true;
                      } catch (const std::exception& exc) {
diff --git a/src/streaming/array.writer.hh b/src/streaming/array.writer.hh
index c81aecb..70fb1e2 100644
--- a/src/streaming/array.writer.hh
+++ b/src/streaming/array.writer.hh
@@ -61,6 +61,7 @@ class ArrayWriter
 
     /// Chunking
     std::vector<ChunkBuffer> chunk_buffers_;
+    std::vector<char> chunk_is_compressed_;
 
     /// Filesystem
     std::vector<std::unique_ptr<Sink>> data_sinks_;
-- 
2.43.0


From a26c05c1261ad333b3f56b9b71ef2884aa2002e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 30/33] fix: Python append: write the elements of
 non-contiguous arrays

---
 python/acquire-zarr-py.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/acquire-zarr-py.cpp b/python/acquire-zarr-py.cpp
index f50d7e0..702ca90 100644
--- a/python/acquire-zarr-py.cpp
+++ b/python/acquire-zarr-py.cpp
@@ -376,7 +376,17 @@ class PyZarrStream
             throw py::error_already_set();
         }
 
-        auto buf = image_data.request();
+        // the stream consumes a flat buffer: transposed, sliced, or otherwise
+        // strided arrays must be laid out in C order first
+        auto contiguous =
+          py::array::ensure(image_data, py::array::c_style);
+        if (!contiguous) {
+            PyErr_SetString(PyExc_RuntimeError,
+                            "Failed to make the image data contiguous");
+            throw py::error_already_set();
+        }
+
+        auto buf = contiguous.request();
         auto* ptr = (uint8_t*)buf.ptr;
 
         size_t bytes_out;
-- 
2.43.0


From d8b272e4446f7187a56ba51e03e7f6223ed01eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:12 +0000
Subject: [PATCH 31/33] fix: trim: do not pass negative characters to isspace

The classification functions are defined for the values of an unsigned char
and EOF only; the bytes of a name or path outside ASCII are negative where char
is signed.
---
 src/streaming/zarr.common.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/streaming/zarr.common.cpp b/src/streaming/zarr.common.cpp
index 50bd413..42c5544 100644
--- a/src/streaming/zarr.common.cpp
+++ b/src/streaming/zarr.common.cpp
@@ -15,14 +15,14 @@ zarr::trim(std::string_view s)
     // trim left
     std::string trimmed(s);
     trimmed.erase(trimmed.begin(),
-                  std::find_if(trimmed.begin(), trimmed.end(), [](char c) {
+                  std::find_if(trimmed.begin(), trimmed.end(), [](unsigned char c) {
                       return !std::isspace(c);
                   }));
 
     // trim right
     trimmed.erase(std::find_if(trimmed.rbegin(),
                                trimmed.rend(),
-                               [](char c) { return !std::isspace(c); })
+                               [](unsigned char c) { return !std::isspace(c); })
                     .base(),
                   trimmed.end());
 
-- 
2.43.0


From fead9e1facbb75d56cb96bd794e3e324a7962fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:12 +0000
Subject: [PATCH 32/33] fix: keep writing to the store if the working directory
 changes

A relative store path was resolved anew each time a file was opened, so after a
change of the working directory the rest of the store was silently written
somewhere else.
---
 src/streaming/zarr.stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index e0d46c6..85194e6 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -559,6 +559,10 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
 {
     version_ = settings->version;
     store_path_ = zarr::trim(settings->store_path);
+    if (!is_s3_acquisition(settings)) {
+        // the working directory may change while streaming
+        store_path_ = fs::absolute(store_path_).string();
+    }
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
     }
-- 
2.43.0


From 5655e5ab2947a5e6dad43ad88676f63fcc764d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:40 +0000
Subject: [PATCH 33/33] fix: store paths that end in a separator or in no name

"s.zarr/" was rejected when nothing was there yet; "." or "x/.." had the
directory's contents removed before the stream failed.
---
 src/streaming/zarr.stream.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/streaming/zarr.stream.cpp b/src/streaming/zarr.stream.cpp
index 85194e6..7927fb0 100644
--- a/src/streaming/zarr.stream.cpp
+++ b/src/streaming/zarr.stream.cpp
@@ -73,10 +73,24 @@ validate_s3_settings(const ZarrS3Settings* settings)
     return true;
 }
 
+// surrounding blanks and trailing separators are not part of the path
+[[nodiscard]] fs::path
+filesystem_store_path(const char* store_path)
+{
+    const fs::path path = zarr::trim(store_path);
+    return path.has_filename() ? path : path.parent_path();
+}
+
 [[nodiscard]] bool
-validate_filesystem_store_path(std::string_view data_root)
+validate_filesystem_store_path(const fs::path& path)
 {
-    fs::path path(data_root);
+    // what is there is going to be replaced, so it must have a name
+    const auto name = path.filename();
+    if (name.empty() || name == "." || name == "..") {
+        LOG_ERROR("Store path ", path, " does not end in the name of a store");
+        return false;
+    }
+
     fs::path parent_path = path.parent_path();
     if (parent_path.empty()) {
         parent_path = ".";
@@ -238,7 +252,8 @@ validate_settings(const struct ZarrStreamSettings_s* settings)
     if ((is_s3_acquisition(settings) &&
          !validate_s3_settings(settings->s3_settings)) ||
         (!is_s3_acquisition(settings) &&
-         !validate_filesystem_store_path(store_path))) {
+         !validate_filesystem_store_path(
+           filesystem_store_path(settings->store_path)))) {
         return false;
     }
 
@@ -561,7 +576,8 @@ ZarrStream_s::commit_settings_(const struct ZarrStreamSettings_s* settings)
     store_path_ = zarr::trim(settings->store_path);
     if (!is_s3_acquisition(settings)) {
         // the working directory may change while streaming
-        store_path_ = fs::absolute(store_path_).string();
+        store_path_ =
+          fs::absolute(filesystem_store_path(settings->store_path)).string();
     }
     if (settings->custom_metadata) {
         custom_metadata_ = zarr::trim(settings->custom_metadata);
-- 
2.43.0

