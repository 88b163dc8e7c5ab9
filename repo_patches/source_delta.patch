From 95aafe92212f48894ff93bf6e37b9d7487c55b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:22 +0000
Subject: [PATCH 01/39] fix: Block::get_chunk asserted the opposite of what an
 uncompressed chunk needs

---
 include/lib842/stream/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/stream/block.h b/include/lib842/stream/block.h
index 9790384..5339b45 100644
--- a/include/lib842/stream/block.h
+++ b/include/lib842/stream/block.h
@@ -50,7 +50,7 @@ struct Block {
 		if (sizes[chunk_no] == 0) // Chunk not present ('gap')
 			return nullptr;
 		if (sizes[chunk_no] == CHUNK_SIZE) { // Uncompressible chunk - read from source
-			assert(source == nullptr);
+			assert(source != nullptr);
 			return static_cast<const uint8_t *>(source) + chunk_no * CHUNK_SIZE;
 		}
 		return chunk_buffer.get() + chunk_no * chunk_padding;
-- 
2.43.0


From 5876c5fbb91a34f6fc059f612066dfbfedf2eeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:22 +0000
Subject: [PATCH 02/39] fix: report errors of individual chunks from the
 multi-chunk functions

---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index e69c43a..b009c75 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -25,7 +25,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			ret = rets[i]; \
 	} \
  \
-	return 0; \
+	return ret; \
 }
 
 #define LIB842_DEFINE_TRIVIAL_CHUNKED_DECOMPRESS LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS
-- 
2.43.0


From 89052839e7e45cb9f73a1cc0f7258f0494e957e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:22 +0000
Subject: [PATCH 03/39] fix: multi-chunk functions wrapped offsets at 4 GiB

---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index b009c75..f78592d 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -13,7 +13,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			  const uint8_t *in, size_t istride, const size_t *ilens, \
 			  uint8_t *out, size_t ostride, size_t *olens) { \
 	int ret = 0; \
-	for (unsigned int i = 0, soffset = 0, doffset = 0; \
+	for (size_t i = 0, soffset = 0, doffset = 0; \
 	     i < numchunks; \
 	     i++, soffset += istride, doffset += ostride) { \
 		if (ilens[i] == SIZE_MAX) \
-- 
2.43.0


From b137087507d3bfe4ff29ee37ca9ca287b5068f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:46 +0000
Subject: [PATCH 04/39] fix: decompression stream aborted or read uninitialised
 codes instead of reporting a chunk that fails to decompress

---
 src/stream/DataDecompressionStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 03aaf73..b528c94 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -212,6 +212,7 @@ bool DataDecompressionStream::handle_block(const Block &block,
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
 	output_chunk_sizes.fill(CHUNK_SIZE);
+	chunk_rets.fill(0); // Not written for chunks that are not decompressed
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
 		if (block.sizes[i] == 0) {
@@ -248,8 +249,8 @@ bool DataDecompressionStream::handle_block(const Block &block,
 #endif
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-		assert(chunk_rets[i] == 0);
-		assert(output_chunk_sizes[i] == CHUNK_SIZE);
+		if (chunk_rets[i] != 0 || output_chunk_sizes[i] != CHUNK_SIZE)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 86863d2baedb5b0a20d82cfc39373f054757e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:46 +0000
Subject: [PATCH 05/39] fix: decompression stream crashed on blocks with
 impossible chunk sizes or missing data

---
 src/stream/DataDecompressionStream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index b528c94..b1224e5 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -227,12 +227,15 @@ bool DataDecompressionStream::handle_block(const Block &block,
 
 		if (block.sizes[i] == CHUNK_SIZE) {
 			// Uncompressed (uncompressible) chunk, copy from source to destination as-is
+			if (block.source == nullptr)
+				return false;
 			std::copy(block.get_chunk(i), block.get_chunk(i) + CHUNK_SIZE, destination);
 			input_chunk_sizes[i] = SIZE_MAX;
 			continue;
 		}
 
-		assert(block.sizes[i] > 0 && block.sizes[i] <= COMPRESSIBLE_THRESHOLD);
+		if (block.sizes[i] > COMPRESSIBLE_THRESHOLD || block.get_chunk_buffer() == nullptr)
+			return false;
 		input_chunk_sizes[i] = block.sizes[i];
 	}
 
-- 
2.43.0


From c1c6ad231e6f5b9680850ece82172791a67febee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:46 +0000
Subject: [PATCH 06/39] fix: decompression stream terminated the process when
 dropping its queue while out of memory

---
 src/stream/DataDecompressionStream.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index b1224e5..f1270c3 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -83,8 +83,11 @@ void DataDecompressionStream::finalize(bool cancel, std::function<void(bool)> fi
 	std::lock_guard<std::mutex> lock(_mutex);
 	_finalizing = true;
 	_finalize_callback = std::move(finalize_callback);
-	if (cancel)
-		_queue = std::queue<Block>();
+	if (cancel) {
+		// (assigning an empty queue would need to allocate memory)
+		while (!_queue.empty())
+			_queue.pop();
+	}
 	_queue_available.notify_all();
 }
 
@@ -150,7 +153,9 @@ void DataDecompressionStream::loop_decompress_thread(size_t thread_id) {
 					std::lock_guard<std::mutex> lock(_mutex);
 					first_error = !_error;
 					_error = true;
-					_queue = std::queue<Block>();
+					// (assigning an empty queue would need to allocate memory)
+					while (!_queue.empty())
+						_queue.pop();
 				}
 
 				if (first_error) {
-- 
2.43.0


From 6792da65592ab718a0cd947559fe6aefae52bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:46 +0000
Subject: [PATCH 07/39] fix: data race on the streams' quit flag

---
 include/lib842/stream/comp.h   | 3 ++-
 include/lib842/stream/decomp.h | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index c545dc5..8ad83ea 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -112,7 +112,8 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the compression threads to quit (for cleanup)
-	bool _quit;
+	// (atomic because the threads also check it without holding the mutex)
+	std::atomic<bool> _quit;
 
 	unsigned _offset_sync_epoch_multiple_log2;
 };
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 7b8d808..3a4b163 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -15,6 +15,7 @@
 #include <lib842/stream/block.h>
 #include <lib842/common.h>
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <thread>
@@ -110,7 +111,8 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the decompression threads to quit (for cleanup)
-	bool _quit;
+	// (atomic because the threads also check it without holding the mutex)
+	std::atomic<bool> _quit;
 };
 
 } // namespace stream
-- 
2.43.0


From 2fb9167e4a99bac2f8b94f6b68dce6119dff2c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:16 +0000
Subject: [PATCH 08/39] fix: compression stream terminated the process instead
 of reporting an error when out of memory

---
 src/stream/DataCompressionStream.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 741be08..feede65 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -239,8 +239,14 @@ Block DataCompressionStream::handle_block(size_t offset, stats_per_thread_t &sta
 	block.chunk_padding = CHUNK_PADDING;
 	block.offset = offset;
 
-	uint8_t *chunk_buffer = block.allocate_buffer(
-		_impl842.preferred_alignment, CHUNK_PADDING);
+	uint8_t *chunk_buffer;
+	try {
+		chunk_buffer = block.allocate_buffer(
+			_impl842.preferred_alignment, CHUNK_PADDING);
+	} catch (const std::bad_alloc &) {
+		block.offset = SIZE_MAX; // Indicates error to the user
+		return block;
+	}
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
 	input_chunk_sizes.fill(CHUNK_SIZE);
-- 
2.43.0


From 5d368a2d5d313467d1d36fd36ad7f6f02f5ea383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:22 +0000
Subject: [PATCH 09/39] fix: stream construction failing halfway terminated the
 process

---
 include/lib842/stream/comp.h           |  1 +
 include/lib842/stream/decomp.h         |  1 +
 src/stream/DataCompressionStream.cpp   | 13 +++++++++++++
 src/stream/DataDecompressionStream.cpp | 13 +++++++++++++
 4 files changed, 28 insertions(+)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index 8ad83ea..083009e 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -75,6 +75,7 @@ private:
 #endif
 	};
 
+	void stop_threads();
 	void loop_compress_thread(size_t thread_id);
 	Block handle_block(size_t offset, stats_per_thread_t &stats) const;
 
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 3a4b163..3eb3346 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -72,6 +72,7 @@ private:
 #endif
 	};
 
+	void stop_threads();
 	void loop_decompress_thread(size_t thread_id);
 	bool handle_block(const Block &block,
 			  stats_per_thread_t &stats) const;
diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index feede65..610e37f 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -35,14 +35,27 @@ DataCompressionStream::DataCompressionStream(
 		_error_logger() << "CHUNK_SIZE must be a multiple of the required 842 alignment" << std::endl;
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
+	// If anything fails from here on, the threads already running must be stopped
+	struct stop_threads_on_failure {
+		DataCompressionStream *stream;
+		~stop_threads_on_failure() {
+			if (stream != nullptr)
+				stream->stop_threads();
+		}
+	} on_failure { this };
 	_threads.reserve(num_threads);
 	for (size_t i = 0; i < num_threads; i++)
 		_threads.emplace_back(&DataCompressionStream::loop_compress_thread, this, i);
 	if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
 		spread_threads_among_numa_nodes(_threads);
+	on_failure.stream = nullptr;
 }
 
 DataCompressionStream::~DataCompressionStream() {
+	stop_threads();
+}
+
+void DataCompressionStream::stop_threads() {
 	{
 		std::lock_guard<std::mutex> lock(_mutex);
 		_quit = true;
diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index f1270c3..1a3dc29 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -28,14 +28,27 @@ DataDecompressionStream::DataDecompressionStream(
 		_error_logger() << "CHUNK_SIZE must be a multiple of the required 842 alignment" << std::endl;
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
+	// If anything fails from here on, the threads already running must be stopped
+	struct stop_threads_on_failure {
+		DataDecompressionStream *stream;
+		~stop_threads_on_failure() {
+			if (stream != nullptr)
+				stream->stop_threads();
+		}
+	} on_failure { this };
 	_threads.reserve(num_threads);
 	for (size_t i = 0; i < num_threads; i++)
 		_threads.emplace_back(&DataDecompressionStream::loop_decompress_thread, this, i);
 	if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
 		spread_threads_among_numa_nodes(_threads);
+	on_failure.stream = nullptr;
 }
 
 DataDecompressionStream::~DataDecompressionStream() {
+	stop_threads();
+}
+
+void DataDecompressionStream::stop_threads() {
 	{
 		std::lock_guard<std::mutex> lock(_mutex);
 		_quit = true;
-- 
2.43.0


From 010d34c6f74574de97741338aa790ded5aae4896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:16 +0000
Subject: [PATCH 10/39] fix: sw842_compress crashed or exited the process when
 out of memory

---
 src/serial/842_compress.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 525e87e..8d34853 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -17,6 +17,8 @@
  */
 
 #include "842-internal.h"
+// Failed allocations are reported as -ENOMEM, not by exiting the process
+#define HASH_NONFATAL_OOM 1
 #include "uthash/src/uthash.h"
 #include "uthash/src/utlist.h"
 #include "kerneldeps.h"
@@ -187,13 +189,21 @@ static uint8_t comp_ops[OPS_MAX][5] = { /* params size in bits */
 		if (h == NULL) {                                               \
 			h = (struct hlist_node##b *)malloc(                    \
 				sizeof(struct hlist_node##b));                 \
+			if (h == NULL)                                         \
+				return -ENOMEM;                                \
 			h->data = _n;                                          \
 			h->head = NULL;                                        \
 			HASH_ADD(hh, p->htable##b, data, b, h);                \
+			if (h->hh.tbl == NULL) {                               \
+				free(h);                                       \
+				return -ENOMEM;                                \
+			}                                                      \
 		}                                                              \
                                                                                \
 		struct node##b##_el *el = (struct node##b##_el *)malloc(       \
 			sizeof(struct node##b##_el));                          \
+		if (el == NULL)                                                \
+			return -ENOMEM;                                        \
 		el->index = node_index;                                        \
 		DL_APPEND(h->head, el);                                        \
 	} while (0)
@@ -481,7 +491,7 @@ static void get_next_data(struct sw842_param *p)
  * only call this after finding/adding the current template
  * the dataN fields for the current 8 byte block must be already updated
  */
-static void update_hashtables(struct sw842_param *p)
+static int update_hashtables(struct sw842_param *p)
 {
 	uint64_t pos = p->in - p->instart;
 	uint64_t n8 = (pos >> 3) % (1 << I8_BITS);
@@ -495,6 +505,8 @@ static void update_hashtables(struct sw842_param *p)
 	replace_hash(p, 2, n2, 1);
 	replace_hash(p, 2, n2, 2);
 	replace_hash(p, 2, n2, 3);
+
+	return 0;
 }
 
 /* find the next template to use, and add it
@@ -545,6 +557,11 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 	uint8_t repeat_count = 0;
 	uint32_t crc;
 
+	if (p == NULL) {
+		*olen = 0;
+		return -ENOMEM;
+	}
+
 	p->htable2 = NULL;
 	p->htable4 = NULL;
 	p->htable8 = NULL;
@@ -613,7 +630,9 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 
 	repeat:
 		last = next;
-		update_hashtables(p);
+		ret = update_hashtables(p);
+		if (ret)
+			goto cleanup;
 		p->in += 8;
 		p->ilen -= 8;
 	}
-- 
2.43.0


From 21323b0dde9be4b9b08851701c8dc259b22cc00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:40 +0000
Subject: [PATCH 11/39] fix: optsw842_compress left the output length untouched
 when rejecting its input

---
 src/serial_optimized/842_compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index c790a4a..9e9e242 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -574,6 +574,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		fprintf(stderr,
 			"Can only compress multiples of 8 bytes, but len is len %zu (%% 8 = %zu)\n",
 			ilen, ilen % 8);
+		*olen = 0;
 		return -EINVAL;
 	}
 
-- 
2.43.0


From 38bb950d49495c543e8374fc512789cc6f668616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:40 +0000
Subject: [PATCH 12/39] fix: optsw842_compress read past the end of an empty
 input

---
 src/serial_optimized/842_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 9e9e242..d71458a 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -607,7 +607,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		*olen = 0;
 
 		/* make initial 'last' different so we don't match the first time */
-		last = ~read64(p->in);
+		last = p->ilen > 7 ? ~read64(p->in) : 0;
 
 		while (p->ilen > 7) {
 			next = read64(p->in);
-- 
2.43.0


From 68083ff4d765b4f244f93b4b7bf2112d9743ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:40 +0000
Subject: [PATCH 13/39] fix: optsw842_compress crashed when out of memory

---
 src/serial_optimized/842_compress.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index d71458a..26c70be 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -585,6 +585,10 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	}
 
 	auto *p = (struct sw842_param *)malloc(sizeof(struct sw842_param));
+	if (p == NULL) {
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	std::fill(std::begin(p->hashes), std::end(p->hashes), 0);
 
@@ -600,6 +604,11 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	p->ilen = ilen;
 
 	p->stream = stream_open(out, *olen);
+	if (p->stream == NULL) {
+		free(p);
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	try {
 		p->olen = *olen;
-- 
2.43.0


From 42cb1fcc15d977ad65bf708c931d982c8d9ab776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:40 +0000
Subject: [PATCH 14/39] fix: sw842_decompress read before the output buffer
 when a repeat follows short data

---
 src/serial/842_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 580b9ba..4718a51 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -328,7 +328,7 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 			if (ret)
 				return ret;
 
-			if (p.out == out) /* no previous bytes */
+			if (p.out - out < 8) /* no previous bytes */
 				return -EINVAL;
 
 			/* copy rep + 1 */
-- 
2.43.0


From 513a51d4513e85388939c8ae38294041a025abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:41 +0000
Subject: [PATCH 15/39] fix: do not use the thread-specific key of the
 cryptodev contexts if it could not be created

---
 src/cryptodev/842_interface.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index ce414e8..8b517df 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -219,8 +219,6 @@ static void create_thread_ctx_key()
 {
 	if (tss_create(&thread_ctx_key, destroy_thread_ctx) != thrd_success)
 		thread_ctx_key_err = -ENOMEM;
-
-	thread_ctx_key_err = 0;
 }
 
 static int get_thread_cryptodev_ctx(struct cryptodev_ctx **rctx)
-- 
2.43.0


From 384987302a11a38d7e6400812d832033456f3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:21 +0000
Subject: [PATCH 16/39] fix: initialize the cryptodev alignment mask if the
 session info can not be queried

---
 src/cryptodev/842_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 8b517df..662da92 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -81,6 +81,8 @@ static int c842_ctx_init(struct cryptodev_ctx *ctx)
 	}
 #endif
 	ctx->alignmask = siop.alignmask;
+#else
+	ctx->alignmask = 0;
 #endif
 
 	return 0;
-- 
2.43.0


From a6bf103afe6ce844ac9549564442b32d8c04e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:21 +0000
Subject: [PATCH 17/39] fix: initialize the cryptodev implementation table only
 once

---
 src/cryptodev/842_interface.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 662da92..534e3d2 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -320,21 +320,26 @@ int hw842_decompress_chunked(size_t numchunks, int *rets,
 				     out, ostride, olens);
 }
 
-const struct lib842_implementation *get_hw842_implementation() {
-	static struct lib842_implementation hw842_implementation = {
-		.compress = hw842_compress,
-		.decompress = hw842_decompress,
-		.compress_chunked = hw842_compress_chunked,
-		.decompress_chunked = hw842_decompress_chunked,
-		.required_alignment = 0,
-		.preferred_alignment = 0
-	};
-	if (hw842_implementation.required_alignment == 0)
-		hw842_implementation.required_alignment = hw842_get_required_alignment();
+static struct lib842_implementation hw842_implementation = {
+	.compress = hw842_compress,
+	.decompress = hw842_decompress,
+	.compress_chunked = hw842_compress_chunked,
+	.decompress_chunked = hw842_decompress_chunked,
+	.required_alignment = 0,
+	.preferred_alignment = 0
+};
+static once_flag hw842_implementation_once = ONCE_FLAG_INIT;
+
+static void init_hw842_implementation()
+{
+	hw842_implementation.required_alignment = hw842_get_required_alignment();
 	// The cryptodev implementation can work better (do zero copy)
 	// if the buffers are page-aligned
-	if (hw842_implementation.preferred_alignment == 0)
-		hw842_implementation.preferred_alignment = sysconf(_SC_PAGESIZE);
+	hw842_implementation.preferred_alignment = sysconf(_SC_PAGESIZE);
+}
+
+const struct lib842_implementation *get_hw842_implementation() {
+	call_once(&hw842_implementation_once, init_hw842_implementation);
 
 	return &hw842_implementation;
 }
-- 
2.43.0


From c752bde971e00d1e1cd8a6fc04d7f71781c58557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:38 +0000
Subject: [PATCH 18/39] fix: CLHostDecompressor overwrote skipped chunks with
 uninitialised memory

---
 src/ocl/cl842decompress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 3a2582c..a8cdd5a 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -426,6 +426,10 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					outputBufferSize != 0 ? outputBufferSize : 1);
 
 		cl::copy(m_queue, input, input + inputBufferSize, inputBuffer);
+		// Chunks may be marked as "skip - already in destination",
+		// so the contents of the destination need to be preserved
+		if (m_inputFormat == CLDecompressorInputFormat::MAYBE_COMPRESSED_CHUNKS)
+			cl::copy(m_queue, output, output + outputBufferSize, outputBuffer);
 		m_deviceCompressor.decompress(m_queue, numChunks,
 					      inputBuffer, 0, inputSizesBuffer,
 					      outputBuffer, 0, outputSizesBuffer,
-- 
2.43.0


From c6321e556b6122f43ea573fe8678cd90ffea6db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:27 +0000
Subject: [PATCH 19/39] fix: failing to write the OpenCL program cache made
 constructing a decompressor fail

---
 src/ocl/cl842decompress.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index a8cdd5a..54e23c7 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -260,7 +260,13 @@ void CLDeviceDecompressor::buildProgram(
 		throw;
 	}
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
-	cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	try {
+		cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	} catch (const std::exception &) {
+		m_debug_logger()
+			<< "Could not write lib842's OpenCL program cache"
+			<< std::endl;
+	}
 #endif
 }
 
-- 
2.43.0


From 6b0516f21003233fa21d05089122d6a9f8ba6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:50 +0000
Subject: [PATCH 20/39] fix: a damaged OpenCL program cache made construction
 fail or was used as a program

---
 src/ocl/cl842decompress.cpp | 40 ++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 54e23c7..78b5728 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -102,8 +102,20 @@ struct program_cache
 	cl::vector<cl::string> deviceNames;
 
 	cl::Program::Binaries find() const {
-		std::ifstream in(CACHE_PATH, std::ifstream::in | std::ifstream::binary);
-		in.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+		std::ifstream file(CACHE_PATH, std::ifstream::in | std::ifstream::binary);
+		file.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+
+		// The file may be truncated, torn or corrupted in any other way,
+		// so don't believe any of its contents before checking its checksum
+		uint32_t storedChecksum;
+		file.read(reinterpret_cast<char *>(&storedChecksum), sizeof(storedChecksum));
+		std::string contents((std::istreambuf_iterator<char>(file)),
+				     std::istreambuf_iterator<char>());
+		if (storedChecksum != checksum(contents))
+			return {};
+
+		std::istringstream in(contents);
+		in.exceptions(std::istream::failbit | std::istream::badbit);
 
 		program_cache disk_cache;
 		disk_cache.readMetadata(in);
@@ -121,16 +133,26 @@ struct program_cache
 	void set(const cl::Program::Binaries &binaries) const {
 		assert(deviceNames.size() == binaries.size());
 
-		std::ofstream out(CACHE_PATH, std::ofstream::out | std::ofstream::binary);
-		out.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+		std::ostringstream out;
 		writeMetadata(out);
 		writeBinaries(out, binaries);
+		std::string contents = out.str();
+		uint32_t contentsChecksum = checksum(contents);
+
+		std::ofstream file(CACHE_PATH, std::ofstream::out | std::ofstream::binary);
+		file.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+		file.write(reinterpret_cast<const char *>(&contentsChecksum), sizeof(contentsChecksum));
+		file.write(contents.data(), contents.size());
 	}
 
 private:
 	static constexpr const char *CACHE_PATH = "/tmp/cl842_cache.bin";
 
-	void readMetadata(std::ifstream &in) {
+	static uint32_t checksum(const std::string &contents) {
+		return crc32_be(~0U, reinterpret_cast<const uint8_t *>(contents.data()), contents.size());
+	}
+
+	void readMetadata(std::istream &in) {
 		in.read(reinterpret_cast<char *>(&chunkSize), sizeof(chunkSize));
 		in.read(reinterpret_cast<char *>(&chunkStride), sizeof(chunkStride));
 		in.read(reinterpret_cast<char *>(&inputFormat), sizeof(inputFormat));
@@ -148,7 +170,7 @@ private:
 		}
 	}
 
-	static cl::Program::Binaries readBinaries(std::ifstream &in, size_t numDevices) {
+	static cl::Program::Binaries readBinaries(std::istream &in, size_t numDevices) {
 		cl::Program::Binaries binaries;
 		for (size_t i = 0; i < numDevices; i++) {
 			size_t size;
@@ -160,7 +182,7 @@ private:
 		return binaries;
 	}
 
-	void writeMetadata(std::ofstream &out) const {
+	void writeMetadata(std::ostream &out) const {
 		out.write(reinterpret_cast<const char *>(&chunkSize), sizeof(chunkSize));
 		out.write(reinterpret_cast<const char *>(&chunkStride), sizeof(chunkStride));
 		out.write(reinterpret_cast<const char *>(&inputFormat), sizeof(inputFormat));
@@ -176,7 +198,7 @@ private:
 		}
 	}
 
-	static void writeBinaries(std::ofstream &out, const cl::Program::Binaries &binaries) {
+	static void writeBinaries(std::ostream &out, const cl::Program::Binaries &binaries) {
 		for (const auto &b : binaries) {
 			size_t size = b.size();
 			out.write(reinterpret_cast<const char *>(&size), sizeof(size));
@@ -226,7 +248,7 @@ void CLDeviceDecompressor::buildProgram(
 	cl::Program::Binaries binaries;
 	try {
 		binaries = cache.find();
-	} catch (const std::ifstream::failure &) {
+	} catch (const std::exception &) {
 		m_debug_logger()
 			<< "Could not read lib842's OpenCL program cache, regenerating"
 			<< std::endl;
-- 
2.43.0


From 5de963cda88dfd75296507a8ca885574253d70ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:08 +0000
Subject: [PATCH 21/39] fix: using only some of the devices of a context
 aborted when writing the OpenCL program cache

---
 src/ocl/cl842decompress.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 78b5728..1b5d9ec 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -283,7 +283,20 @@ void CLDeviceDecompressor::buildProgram(
 	}
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
 	try {
-		cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+		// The program is associated with all devices in the context,
+		// but we need the binaries only for those it was built for
+		auto programDevices = m_program.getInfo<CL_PROGRAM_DEVICES>();
+		auto programBinaries = m_program.getInfo<CL_PROGRAM_BINARIES>();
+		cl::Program::Binaries deviceBinaries;
+		for (const auto &d : devices) {
+			for (size_t i = 0; i < programDevices.size(); i++) {
+				if (programDevices[i]() == d()) {
+					deviceBinaries.push_back(programBinaries[i]);
+					break;
+				}
+			}
+		}
+		cache.set(deviceBinaries);
 	} catch (const std::exception &) {
 		m_debug_logger()
 			<< "Could not write lib842's OpenCL program cache"
-- 
2.43.0


From c27a0d6c5853daaf2cf9a6df65bcef754aa55f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:24 +0000
Subject: [PATCH 22/39] fix: cl842_decompress accessed memory past its
 parameters when passed more than 99999 bytes

---
 src/ocl/cl842decompress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 1b5d9ec..03163a4 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -508,7 +508,7 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 {
 	try {
 		static lib842::CLHostDecompressor decompressor(
-			65536, 99999 /* Doesn't matter */,
+			65536, SIZE_MAX / 2 /* Always a single chunk */,
 			lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS,
 			true, false);
 		int ret;
-- 
2.43.0


From 37019856d2c2732a8eae969fbf65168d054257ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:24 +0000
Subject: [PATCH 23/39] fix: cl842_decompress let exceptions escape when out of
 memory

---
 src/ocl/cl842decompress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 03163a4..b5cbb91 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -514,7 +514,7 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 		int ret;
 		decompressor.decompress(in, ilen, &ilen, out, *olen, olen, nullptr, &ret, nullptr);
 		return ret;
-	} catch (const cl::Error &) {
+	} catch (const std::exception &) {
 		// Not a great error value, but we shouldn't let C++ exceptions
 		// propagate out from the C API
 		return -ENOMEM;
-- 
2.43.0


From 36a40a2bff1c078bba646f3e2f699efb496169ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:45 +0000
Subject: [PATCH 24/39] fix: OpenCL kernel read past the end of an input whose
 size is not a multiple of 8

---
 src/ocl/decompress.cl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 12794e7..8c08d45 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -128,7 +128,7 @@ static inline uint64_t read_bits(struct sw842_param_decomp *p, uint32_t n)
 		p->lookAheadBuffer[2] = p->lookAheadBuffer[3];
 		p->lookAheadBuffer[3] = p->lookAheadBuffer[4];
 		p->lookAheadBuffer[4] = p->lookAheadBuffer[5];
-		p->lookAheadBuffer[5] = ((p->in - p->istart + 6) * sizeof(uint64_t) < p->ilen) ? swap_be_to_native64(*(p->in + 6)) : 0;
+		p->lookAheadBuffer[5] = ((p->in - p->istart + 7) * sizeof(uint64_t) <= p->ilen) ? swap_be_to_native64(*(p->in + 6)) : 0;
 #else
 		p->buffer = swap_be_to_native64(*p->in);
 #endif
@@ -279,12 +279,12 @@ static inline int decompress_core(__global const uint64_t *RESTRICT_UNLESS_INPLA
 
 	p.buffer = 0;
 #ifdef USE_LOOKAHEAD_BUFFER
-	p.lookAheadBuffer[0] = ((p.in - p.istart) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 0)) : 0;
-	p.lookAheadBuffer[1] = ((p.in - p.istart + 1) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 1)) : 0;
-	p.lookAheadBuffer[2] = ((p.in - p.istart + 2) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 2)) : 0;
-	p.lookAheadBuffer[3] = ((p.in - p.istart + 3) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 3)) : 0;
-	p.lookAheadBuffer[4] = ((p.in - p.istart + 4) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 4)) : 0;
-	p.lookAheadBuffer[5] = ((p.in - p.istart + 5) * sizeof(uint64_t) < p.ilen) ? swap_be_to_native64(*(p.in + 5)) : 0;
+	p.lookAheadBuffer[0] = ((p.in - p.istart + 1) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 0)) : 0;
+	p.lookAheadBuffer[1] = ((p.in - p.istart + 2) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 1)) : 0;
+	p.lookAheadBuffer[2] = ((p.in - p.istart + 3) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 2)) : 0;
+	p.lookAheadBuffer[3] = ((p.in - p.istart + 4) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 3)) : 0;
+	p.lookAheadBuffer[4] = ((p.in - p.istart + 5) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 4)) : 0;
+	p.lookAheadBuffer[5] = ((p.in - p.istart + 6) * sizeof(uint64_t) <= p.ilen) ? swap_be_to_native64(*(p.in + 5)) : 0;
 #endif
 	p.bits = 0;
 
-- 
2.43.0


From da68b68d42602076deb41ccc42097a53745b06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:09 +0000
Subject: [PATCH 25/39] fix: OpenCL kernel accessed memory outside of the chunk
 if its embedded size is damaged

---
 src/ocl/decompress.cl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 8c08d45..9fd834c 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -430,6 +430,15 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 		return;
 	}
 
+	if (my_in[2] > CL842_CHUNK_SIZE - sizeof(LIB842_COMPRESSED_CHUNK_MARKER) - sizeof(uint64_t)) {
+		// Compressed chunk size doesn't fit in the input chunk buffer
+		if (olen)
+			olen[chunk_num] = 0;
+		if (returnValues)
+			returnValues[chunk_num] = -EINVAL;
+		return;
+	}
+
 	// Read compressed chunk size and skip to the beginning of the chunk
 	// (the end of the chunk matches the end of the input chunk buffer)
 	my_ilen = my_in[2]; // TODOXXX: Avoid all this marker and embeeded lengths
-- 
2.43.0


From f8db079d34883e1dc46194a701f9a6210b532c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:05 +0000
Subject: [PATCH 26/39] fix: OpenCL kernel accessed memory outside of the chunk
 if no sizes are passed

---
 src/ocl/decompress.cl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 9fd834c..1aa7864 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -404,7 +404,7 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 	__global uint64_t *my_out = out + (outOffset / 8) + ((CL842_CHUNK_SIZE / 8) * chunk_num);
 	__global const uint64_t *my_in = in + (inOffset / 8) + ((CL842_CHUNK_STRIDE / 8) * chunk_num);
 
-	size_t my_ilen = ilen != NULL ? ilen[chunk_num] : (size_t)-1;
+	size_t my_ilen = ilen != NULL ? ilen[chunk_num] : CL842_CHUNK_STRIDE;
 
 #if defined(USE_MAYBE_COMPRESSED_CHUNKS) || defined(USE_INPLACE_COMPRESSED_CHUNKS)
 	if (my_in[0] != ((__constant const uint64_t *)LIB842_COMPRESSED_CHUNK_MARKER)[0] ||
@@ -445,7 +445,7 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 			    // nonesense and just pass the lengths with ilen everywhere
 	my_in += (CL842_CHUNK_SIZE - my_in[2]) / 8;
 #endif
-	size_t my_olen = olen != NULL ? olen[chunk_num] : (size_t)-1;
+	size_t my_olen = olen != NULL ? olen[chunk_num] : CL842_CHUNK_SIZE;
 
 	int ret = decompress_core(my_in, my_ilen, my_out, &my_olen);
 	if (olen)
-- 
2.43.0


From 81e62bffe30a5ac4f38b04eb2dbed8408b9f511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:55 +0000
Subject: [PATCH 27/39] fix: OpenCL kernel read past the end of a full output
 buffer

---
 src/ocl/decompress.cl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 1aa7864..e9ab40e 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -210,6 +210,12 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 #ifdef ENABLE_ERROR_HANDLING
 	if (p->errorcode != 0)
 		return;
+	// Needs to be checked before resolving any 2-byte index,
+	// since that also reads the two bytes following it
+	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
+		p->errorcode = -ENOSPC;
+		return;
+	}
 #endif
 
 	for (int i = 0; i < 4; i++) {
@@ -255,12 +261,6 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 			       << (64 - (dst_size << 3) - bits);
 		bits += dst_size << 3;
 	}
-#ifdef ENABLE_ERROR_HANDLING
-	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
-		p->errorcode = -ENOSPC;
-		return;
-	}
-#endif
 	*p->out++ = swap_native_to_be64(output_word);
 }
 
-- 
2.43.0


From 1107eb36c319f4107ecd5708800670552d85b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:19 +0000
Subject: [PATCH 28/39] fix: OpenCL decompression to an empty output buffer
 failed

---
 src/ocl/cl842decompress.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index b5cbb91..470c1a0 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -477,7 +477,9 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					      chunkShuffleMapBuffer, returnValuesBuffer,
 					      nullptr, &decompressEvent);
 		decompressEvent.wait();
-		cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
+		// Avoid a CL_INVALID_VALUE if outputBufferSize == 0
+		if (outputBufferSize != 0)
+			cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
 	}
 
 	if (m_profile && time != nullptr) {
-- 
2.43.0


From e4060727c4df40c8b0a7652abdcabf15fd0fdeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:19 +0000
Subject: [PATCH 29/39] fix: parameters of CLDeviceDecompressor::decompress
 were declared in another order than defined

---
 include/lib842/cl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lib842/cl.h b/include/lib842/cl.h
index 9e63fe3..610ad4a 100644
--- a/include/lib842/cl.h
+++ b/include/lib842/cl.h
@@ -95,8 +95,6 @@ public:
 	*                Must be a multiple of 8.
 	* - outputChunkSizes: Specifies the maximum size to be written for each chunk.
 	*                     This is only for error-checking, and is optional (can be null).
-	* - returnValues: The error code (C errno) is written here for each chunk.
-	*                 This is only for error-checking, and is optional (can be null).
 	* - chunkShuffleMap: Determines the order in which the chunks are processed
 	*                    by the OpenCL kernel, which can influence performance
 	*                    The reason simply shuffling the order in which chunks are
@@ -108,6 +106,8 @@ public:
 	*                    chunks are processed so that all compressible (and respectively
 	*                    uncompressible) chunks are processed together can improve
 	*                    performance in those cases.
+	* - returnValues: The error code (C errno) is written here for each chunk.
+	*                 This is only for error-checking, and is optional (can be null).
 	* - events:          Event wait list before starting decompression
 	*                    (like any clEnqueueXXX OpenCL API).
 	* - event:           OpenCL event triggered after decompression finishing.
@@ -121,8 +121,8 @@ public:
 			const cl::Buffer &outputBuffer,
 			size_t outputOffset,
 			const cl::Buffer &outputChunkSizes,
-			const cl::Buffer &returnValues,
 			const cl::Buffer &chunkShuffleMap,
+			const cl::Buffer &returnValues,
 			const cl::vector<cl::Event> *events = nullptr,
 			cl::Event *event = nullptr) const;
 
-- 
2.43.0


From 77bfb6130b3e31d2299c9b9846fa21c0082df2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:05 +0000
Subject: [PATCH 30/39] fix: NUMA spreading ignored the CPUs with the highest
 numbers if any CPU is offline

---
 src/stream/numa_spread.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index bf0578a..31e14ae 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -7,7 +7,6 @@
 
 #include <pthread.h>
 #include <numa.h>
-#include <sys/sysinfo.h>
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 #include <string>
 #include <sstream>
@@ -44,7 +43,7 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 		return std::vector<cpu_set_t>();
 	}
 
-	int numa_max_nodes = numa_max_node(), nprocs = get_nprocs();
+	int numa_max_nodes = numa_max_node();
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
 		bm { numa_get_mems_allowed(), numa_free_cpumask };
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
@@ -59,7 +58,8 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 		cpu_set_t cpuset;
 		CPU_ZERO(&cpuset);
-		for (int c = 0; c < nprocs; c++) {
+		// (CPU numbers are not consecutive if some CPUs are offline)
+		for (int c = 0; c < CPU_SETSIZE; c++) {
 			if (!numa_bitmask_isbitset(cpumask.get(), c))
 				continue;
 
-- 
2.43.0


From 0ca68c16a7513ae2528aa4598349e80ee0995edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:50:47 +0000
Subject: [PATCH 31/39] fix: destroying a compression stream emitted blocks of
 a later epoch before those of an earlier one

---
 src/stream/DataCompressionStream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 610e37f..23f69a4 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -149,6 +149,10 @@ void DataCompressionStream::loop_compress_thread(size_t thread_id) {
 						    (last_offset >> _offset_sync_epoch_multiple_log2);
 				for (size_t i = 0; i < num_epochs; i++)
 					_finalize_barrier.arrive_and_wait();
+				// If quitting, the barrier has been interrupted, so blocks
+				// of the previous epochs may still be outstanding
+				if (num_epochs != 0 && _quit)
+					break;
 			}
 			last_offset = offset;
 
-- 
2.43.0


From 33e2b579540eb00354ebc5b3cfe2b943a54d2b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:34:37 +0000
Subject: [PATCH 32/39] fix: CUDA kernel: compute chunk positions in 64 bits

With 2^24 or more chunks in one launch (16 GiB of output), the products of the
chunk number and the chunk size in words overflowed 32 bits and threads decoded
other chunks' data or wrote over other chunks' output.
---
 src/cuda/842_decompress.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda/842_decompress.cu b/src/cuda/842_decompress.cu
index 4779425..a3c9dc6 100644
--- a/src/cuda/842_decompress.cu
+++ b/src/cuda/842_decompress.cu
@@ -134,7 +134,8 @@ __device__ static inline uint64_t get_index(const struct sw842_param_decomp *p,
 __global__ void cuda842_decompress(__restrict__ const uint64_t *in,
 				   __restrict__ uint64_t *out)
 {
-	unsigned int chunk_num = blockIdx.x * blockDim.x + threadIdx.x;
+	const uint64_t chunk_num =
+		(uint64_t)blockIdx.x * blockDim.x + threadIdx.x;
 
 	struct sw842_param_decomp p;
 	p.ostart = p.out = out + ((LIB842_CUDA_CHUNK_SIZE / 8) * chunk_num);
-- 
2.43.0


From 2bffa67a32196ac362320e7a1457d190446bfcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:40:54 +0000
Subject: [PATCH 33/39] fix: trivial_chunked.h used ENOSPC without including
 errno.h

---
 src/common/trivial_chunked.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index f78592d..bd1d1ab 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -1,6 +1,7 @@
 #ifndef LIB842_SRC_COMMON_TRIVIAL_CHUNKED_H
 #define LIB842_SRC_COMMON_TRIVIAL_CHUNKED_H
 
+#include <errno.h>
 #include <stdint.h>
 #include <stddef.h>
 #include <limits.h>
-- 
2.43.0


From 02c5650297647618e3701275166d408633504f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:40:54 +0000
Subject: [PATCH 34/39] fix: required and preferred alignment of the AIX
 implementation were swapped

---
 src/aix/aix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aix/aix.c b/src/aix/aix.c
index 7f44855..91e595e 100644
--- a/src/aix/aix.c
+++ b/src/aix/aix.c
@@ -24,8 +24,8 @@ const struct lib842_implementation *get_aix842_implementation() {
 		.compress_chunked = aix842_compress_chunked,
 		.decompress_chunked = aix842_decompress_chunked,
 		// From https://www.ibm.com/support/knowledgecenter/ssw_aix_71/a_bostechref/accel_compress.html
-		.required_alignment = 4096,
-		.preferred_alignment = 128
+		.required_alignment = 128,
+		.preferred_alignment = 4096
 	};
 	return &aix842_implementation;
 };
-- 
2.43.0


From 899bf77c38926f4b2abe98e0acc5783a8cec8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:41:08 +0000
Subject: [PATCH 35/39] fix: preferred alignment of the cryptodev
 implementation was lower than required by some devices

---
 src/cryptodev/842_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 534e3d2..2dddf4f 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -336,6 +336,8 @@ static void init_hw842_implementation()
 	// The cryptodev implementation can work better (do zero copy)
 	// if the buffers are page-aligned
 	hw842_implementation.preferred_alignment = sysconf(_SC_PAGESIZE);
+	if (hw842_implementation.preferred_alignment < hw842_implementation.required_alignment)
+		hw842_implementation.preferred_alignment = hw842_implementation.required_alignment;
 }
 
 const struct lib842_implementation *get_hw842_implementation() {
-- 
2.43.0


From f4cde3d470a7af9a0ae079d8669715b40b71c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:32:14 +0000
Subject: [PATCH 36/39] fix: cl2c: fail if the input can't be opened or the
 output can't be written completely

---
 src/tools/cl2c.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tools/cl2c.cpp b/src/tools/cl2c.cpp
index 12b6b54..3b0e33d 100644
--- a/src/tools/cl2c.cpp
+++ b/src/tools/cl2c.cpp
@@ -11,6 +11,10 @@ int main(int argc, char *argv[])
 	}
 
 	std::ifstream inputFile(argv[1], std::ifstream::in);
+	if (!inputFile) {
+		std::cerr << "Could not open the input file '" << argv[1] << "'.\n";
+		return EXIT_FAILURE;
+	}
 	inputFile.exceptions(std::ifstream::badbit);
 	std::ofstream outputFile(argv[2], std::ifstream::out);
 	outputFile.exceptions(std::ofstream::badbit);
@@ -37,5 +41,12 @@ int main(int argc, char *argv[])
 
 	outputFile << "\"\n;\n";
 
+	// Errors writing the data still buffered can only be noticed before the stream is destroyed
+	outputFile.close();
+	if (!outputFile) {
+		std::cerr << "Could not write the output file '" << argv[2] << "'.\n";
+		return EXIT_FAILURE;
+	}
+
 	return EXIT_SUCCESS;
 }
-- 
2.43.0


From 20835d6a2c87dcdf5dac2d37d0c67409ba5b9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:32:14 +0000
Subject: [PATCH 37/39] fix: sample: don't write the compression error flag
 unsynchronized while the stream is working

---
 sample/compdecomp_streams.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sample/compdecomp_streams.cpp b/sample/compdecomp_streams.cpp
index 9cfa970..bb50f7e 100644
--- a/sample/compdecomp_streams.cpp
+++ b/sample/compdecomp_streams.cpp
@@ -167,7 +167,6 @@ bool compress_benchmark_core(const uint8_t *in, size_t ilen,
 		});
 
 		lib842::detail::latch comp_finished(1);
-		comp_error = false;
 		cstream.finalize(false, [&comp_finished,
 					 &comp_error](bool success) {
 			comp_error |= !success;
-- 
2.43.0


From 30189828bce2cb61659f2326ec23123818722f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:40 +0000
Subject: [PATCH 38/39] fix: sw842: don't refuse data of more than 4 GiB with
 -ENOSPC

---
 src/serial/842_compress.c   | 5 -----
 src/serial/842_decompress.c | 3 ---
 2 files changed, 8 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 8d34853..724aaa7 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -688,11 +688,6 @@ skip_comp:
 		p->olen -= pad;
 	}
 
-	if (unlikely((total - p->olen) > UINT_MAX)) {
-		ret = -ENOSPC;
-		goto cleanup;
-	}
-
 	*olen = total - p->olen;
 
 	//printf("Out: %lld bits (%f bytes)\n", outbits, (outbits / 8.0f));
diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 4718a51..8a1848d 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -402,9 +402,6 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 		return -EINVAL;
 	}
 
-	if (unlikely((total - p.olen) > UINT_MAX))
-		return -ENOSPC;
-
 	*olen = total - p.olen;
 
 	return 0;
-- 
2.43.0


From 512c51f142c913b4e60981d7e94ef265c75c43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 39/39] fix: stream: don't try to place threads on NUMA nodes
 without CPUs

Nodes can have memory but no CPUs (the memory of GPUs on POWER9, CXL).
Binding a thread to such a node fails, so all threads following it were
not spread at all.
---
 src/stream/numa_spread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index 31e14ae..614f336 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -65,6 +65,11 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 			CPU_SET(c, &cpuset);
 		}
+
+		// Nodes can have memory but no CPUs (e.g. the memory of a GPU)
+		if (CPU_COUNT(&cpuset) == 0)
+			continue;
+
 		numa_cpusets.push_back(cpuset);
 	}
 
-- 
2.43.0

