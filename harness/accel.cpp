// Streams on top of accelerators: the real streams drive the real cryptodev or AIX
// implementation, against simulated devices that insist on alignment and fail.
#include "fakecryptodev.h"
#include "ref842.h"
#include <lib842/hw.h>
#include <lib842/aix.h>
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <semaphore.h>
#include <stdlib.h>
#include <memory>
#include <ostream>
#include <thread>
#include <vector>
#include <sys/vminfo.h>

using lib842::stream::Block;
using lib842::stream::BLOCK_SIZE;
using lib842::stream::CHUNK_SIZE;
using lib842::stream::NUM_CHUNKS_PER_BLOCK;
using lib842::stream::DataCompressionStream;
using lib842::stream::DataDecompressionStream;
using lib842::stream::thread_policy;

// ------------------------------------------------------------------ engine
// What the device computes: lossless on tagged chunks of any length, "does not fit" otherwise.
static uint64_t fastmix(uint64_t x) { x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; return x; }
struct Blob { uint64_t magic, tag, len, check; };
static const uint64_t MAGIC = 0x6c65636361323438ull;
static void gen(uint64_t tag, uint8_t *p, size_t n) { for (size_t j = 0; j * 8 < n; j++) { uint64_t v = j ? fastmix(tag + j) : tag; memcpy(p + j * 8, &v, n - j * 8 < 8 ? n - j * 8 : 8); } }
static size_t blob_size(uint64_t tag) { return 32 + 8 * ((tag >> 20) % 600); }
static bool tagged(const uint8_t *p, size_t n)
{
	uint64_t tag; if (n < 8) return false;
	memcpy(&tag, p, 8);
	if ((tag & 0xffff) != 0x5742) return false;
	for (size_t j = 1; (j + 1) * 8 <= n; j += n > 4096 ? 37 : 1) { uint64_t v; memcpy(&v, p + j * 8, 8); if (v != fastmix(tag + j)) return false; }
	return true;
}
static int eng_compress(const uint8_t *in, size_t n, uint8_t *out, size_t *ol)
{
	if (!tagged(in, n)) return -ENOSPC;
	uint64_t tag; memcpy(&tag, in, 8);
	size_t sz = blob_size(tag);
	if (sz > *ol) return -ENOSPC;
	Blob b = {MAGIC, tag, n, fastmix(tag ^ n)};
	memset(out, 0x6b, sz);
	memcpy(out, &b, sizeof b);
	*ol = sz;
	return 0;
}
static int eng_decompress(const uint8_t *in, size_t n, uint8_t *out, size_t *ol)
{
	Blob b; if (n < sizeof b) return -EINVAL;
	memcpy(&b, in, sizeof b);
	if (b.magic != MAGIC || b.check != fastmix(b.tag ^ b.len) || blob_size(b.tag) != n) return -EINVAL;
	if (b.len > *ol) return -ENOSPC;
	gen(b.tag, out, b.len);
	*ol = b.len;
	return 0;
}

// ------------------------------------------------------------------ AIX
static size_t accel_align; // what the implementation says the accelerator needs
static int accel_in_use;
static int accel(const char *what, engine_fn f, unsigned char *in, size_t n, unsigned char *out, size_t *ol, int flags)
{
	sync_point(what, 0);
	if (flags) violate("bad-request", "%s with flags %d", what, flags);
	if (((uintptr_t)in | (uintptr_t)out) % accel_align) violate("misaligned-request", "%s with buffers %p/%p although the accelerator needs alignment %zu", what, in, out, accel_align);
	accel_in_use++;
	if (sys_fault(what)) { sync_point(what, 1); accel_in_use--; int e = err_of("accelerr", {EIO, EINVAL, ENOMEM, EBUSY, ENODEV}); if (!tl_errno) tl_errno = e; return -e; }
	int r;
	{ User u; NoFault nf; r = f(in, n, out, ol); }
	sync_point(what, 2);
	accel_in_use--;
	return r;
}
extern "C" {
int accel_compress(unsigned char *in, size_t n, unsigned char *out, size_t *ol, int flags) { return accel("accel-compress", eng_compress, in, n, out, ol, flags); }
int accel_decompress(unsigned char *in, size_t n, unsigned char *out, size_t *ol, int flags) { return accel("accel-decompress", eng_decompress, in, n, out, ol, flags); }
}

// ------------------------------------------------------------------ application
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
static NullBuf nullbuf;
static std::ostream *nulls;
static std::ostream &logger() { return *nulls; }
struct Gate { sem_t s; Gate() { sem_init(&s, 0, 0); } void open() { sem_post(&s); } void wait() { sem_wait(&s); } };

static const lib842_implementation *impl;
static bool aix;
static uint64_t tags;
// a buffer aligned as the implementation prefers, and not more than that
static uint8_t *buffer(size_t n, void **base)
{
	User u; NoFault nf;
	size_t a = impl->preferred_alignment, big = 1 << 18;
	uint8_t *p = (uint8_t *)aligned_alloc(big, (n + a + big - 1) / big * big + big);
	*base = p;
	return p + (a < big ? a : 0);
}
static void fill(uint8_t *p, size_t n, bool compressible)
{
	uint64_t t = mix64(data64(++tags, 9));
	t = compressible ? (t & ~0xffffull) | 0x5742 : t & ~0xffffull;
	gen(t, p, n);
}
static void device_health(bool sick)
{
	faults_on = sick;
	inject_tss_set = sick && !aix && chance("tss", 1, 5);
	dev_present = aix || !sick || !rare("absent", 2, 1, 10);
	if (!dev_present) fault("device-absent");
}

struct Result { bool ok; bool must_fail, may_fail; };
static uint64_t faults0;
static bool shaky() { return inject_tss_set; }
static void judge_op(const char *what, bool ok, bool erroneous_block)
{
	bool failed = dev_faults != faults0 || tss_create_failed;
	event(what, ok, failed);
	state(mix64((uint64_t)ok << 1 ^ failed ^ (uint64_t)open_files << 8 ^ (uint64_t)sessions_ever << 20 ^ (uint64_t)aix << 40 ^ (uint64_t)impl->preferred_alignment << 41));
	if (ok && failed) violate("error-not-reported", "%s reported success although the device failed", what);
	if (ok && erroneous_block) violate("error-not-reported", "%s reported success although a block failed", what);
	if (!ok && !failed && !shaky()) violate("spurious-failure", "%s reported failure although the device works and all buffers are aligned as the implementation prefers (%zu, required %zu)", what, impl->preferred_alignment, impl->required_alignment);
	if (!ok) { probe("operation-failed"); nontrivial(); }
}

static bool stream_op(DataCompressionStream *cs, DataDecompressionStream *ds, size_t nblocks)
{
	size_t n = nblocks * BLOCK_SIZE;
	void *sb, *db; uint8_t *src = buffer(n, &sb), *dst = buffer(n, &db);
	for (size_t i = 0; i < n; i += CHUNK_SIZE) fill(src + i, CHUNK_SIZE, !rare("incompressible", 2, 1, 6));
	memset(dst, 0x35, n);
	std::vector<Block> blocks; bool bad = false; int errs = 0;
	pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
	faults0 = dev_faults;
	Gate g; bool ok = false; int finals = 0;
	{
		Lib l;
		cs->start(src, n, [&](Block &&b) {
			User u; NoFault nf;
			pthread_mutex_lock(&mx);
			if (b.offset == SIZE_MAX) { bad = true; errs++; } else blocks.push_back(std::move(b));
			pthread_mutex_unlock(&mx);
		});
		cs->finalize(false, [&](bool s) { User u; ok = s; if (finals++) violate("finalize-twice", "finalize callback again"); g.open(); });
	}
	g.wait();
	judge_op("compression", ok, bad);
	if (ok && blocks.size() != nblocks) violate("block-lost", "%zu blocks of %zu", blocks.size(), nblocks);
	bool result = ok;
	if (ok) {
		for (auto &b : blocks) for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
			const uint8_t *s = src + b.offset + i * CHUNK_SIZE;
			if ((b.sizes[i] == CHUNK_SIZE) == tagged(s, CHUNK_SIZE)) violate("wrong-data", "chunk %zu of the block at %zu: size %zu", i, b.offset, b.sizes[i]);
		}
		if (chance("newfaults", 1, 3)) device_health(!faults_on);
		faults0 = dev_faults;
		Gate g2; bool ok2 = false;
		bool transported = pick("transported", 2);
		{
			Lib l;
			ds->start(dst);
			while (blocks.size()) {
				size_t k; { User u; k = pick("order", blocks.size()); }
				if (transported) { // the block travels: a new one is made from what was received
					Block c;
					{ User u; c.offset = blocks[k].offset; c.source = blocks[k].source; c.sizes = blocks[k].sizes; c.chunk_padding = CHUNK_SIZE; }
					uint8_t *p; { NoFault nf; p = c.allocate_buffer(impl->preferred_alignment, c.chunk_padding); }
					User u;
					for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) if (c.sizes[i] && c.sizes[i] != CHUNK_SIZE) memcpy(p + i * CHUNK_SIZE, blocks[k].get_chunk(i), c.sizes[i]);
					if (!ds->push_block(std::move(c))) break;
				} else if (!ds->push_block(std::move(blocks[k]))) break;
				User u; blocks.erase(blocks.begin() + k);
			}
			{ User u; blocks.clear(); }
			ds->finalize(false, [&](bool s) { User u; ok2 = s; g2.open(); });
		}
		g2.wait();
		judge_op("decompression", ok2, false);
		if (ok2 && memcmp(src, dst, n)) violate("wrong-data", "success reported but the data differ");
		if (ok2) probe("round-trip");
		result = ok2;
	}
	blocks.clear();
	free(sb); free(db);
	return result;
}

// single and batch calls on buffers aligned as preferred
static void direct_op()
{
	size_t n = 1 + pick("chunks", 12), a = impl->preferred_alignment, len = 8 * (1 + pick("len", 64)), stride = (len + 32 + 8 * 600 + a - 1) / a * a;
	void *bb[3]; uint8_t *src = buffer(n * stride, &bb[0]), *mid = buffer(n * stride, &bb[1]), *dst = buffer(n * stride, &bb[2]);
	memset(src, 0, n * stride); memset(mid, 0x11, n * stride); memset(dst, 0x22, n * stride);
	std::vector<size_t> il(n, len), ol(n), dl(n); std::vector<int> want(n, 0), rets(n, 777), drets(n, 777);
	for (size_t i = 0; i < n; i++) {
		bool c = !rare("incompressible", 2, 1, 5);
		fill(src + i * stride, len, c);
		ol[i] = stride; want[i] = c ? 0 : -ENOSPC;
		if (rare("skip", 2, 1, 6)) il[i] = SIZE_MAX;
		else if (c && rare("tight", 2, 1, 6)) { uint64_t t; memcpy(&t, src + i * stride, 8); ol[i] = blob_size(t) - 1; want[i] = -ENOSPC; fault("destination-full"); }
	}
	bool batch = n > 1 || pick("batch", 2);
	auto run = [&](const char *what, lib842_compress_chunked_func cf, lib842_compress_func sf, const uint8_t *in, std::vector<size_t> &ilen, uint8_t *out, std::vector<size_t> &olen, std::vector<int> &r, std::vector<int> &w) {
		tl_faults = 0; tl_errno = 0;
		faults0 = dev_faults;
		uint64_t tf = tl_tss_failures;
		int rc; bool any = false; int first = 0;
		{ Lib l; rc = batch ? cf(n, r.data(), in, stride, ilen.data(), out, stride, olen.data()) : ilen[0] == SIZE_MAX ? 0 : (r[0] = sf(in, ilen[0], out, &olen[0])); }
		bool failed = dev_faults != faults0 || tl_tss_failures != tf || tss_create_failed;
		for (size_t i = 0; i < n; i++) if (ilen[i] != SIZE_MAX && w[i] && w[i] != -ENOSPC) { any = true; if (!first) first = w[i]; }
		event(what, rc + 5000, failed);
		if (failed) {
			if (rc >= 0) violate("failure-not-reported", "%s returned %d although the device failed", what, rc);
			if (tl_errno && rc != -tl_errno && !(any && rc == first)) violate("wrong-error", "%s returned %d although the device failed with %d", what, rc, -tl_errno);
			nontrivial();
			return false;
		}
		if (batch && rc < 0 && !any) violate("wrong-result", "%s returned %d although no chunk failed (preferred alignment %zu, required %zu)", what, rc, impl->preferred_alignment, impl->required_alignment);
		for (size_t i = 0; i < n; i++) {
			if (ilen[i] == SIZE_MAX) { if (r[i] != 777) violate("wrong-result", "%s wrote the code of skipped chunk %zu", what, i); continue; }
			if (r[i] != w[i]) violate("wrong-result", "%s: chunk %zu returned %d instead of %d", what, i, r[i], w[i]);
		}
		return true;
	};
	if (run("compress", impl->compress_chunked, impl->compress, src, il, mid, ol, rets, want)) {
		std::vector<size_t> il2(n); std::vector<int> w2(n, 0);
		for (size_t i = 0; i < n; i++) {
			il2[i] = il[i] == SIZE_MAX || rets[i] ? SIZE_MAX : ol[i]; dl[i] = len;
			if (il2[i] == SIZE_MAX) continue;
			uint64_t t; memcpy(&t, src + i * stride, 8);
			if (ol[i] != blob_size(t)) violate("wrong-result", "chunk %zu: length %zu instead of %zu", i, ol[i], blob_size(t));
			if (rare("damage", 2, 1, 8)) { mid[i * stride] ^= 1; w2[i] = -EINVAL; fault("stored-chunk-damaged"); }
			else if (rare("tight", 2, 1, 8)) { dl[i] = len - 8; w2[i] = -ENOSPC; fault("destination-full"); }
		}
		if (run("decompress", impl->decompress_chunked, impl->decompress, mid, il2, dst, dl, drets, w2))
			for (size_t i = 0; i < n; i++)
				if (il2[i] != SIZE_MAX && !w2[i] && (dl[i] != len || memcmp(src + i * stride, dst + i * stride, len))) violate("wrong-data", "chunk %zu does not come back", i);
	}
	for (auto b : bb) free(b);
}

static void application()
{
	device_health(pick("sick0", 4) == 3);
	{ Lib l; impl = aix ? get_aix842_implementation() : get_hw842_implementation(); }
	if (!impl->required_alignment || !impl->preferred_alignment || (impl->preferred_alignment & (impl->preferred_alignment - 1))) violate("bad-alignment", "alignments %zu and %zu", impl->required_alignment, impl->preferred_alignment);
	if (!aix && impl->required_alignment < (size_t)dev_alignmask + 1) violate("bad-alignment", "required alignment %zu although the device needs %d", impl->required_alignment, dev_alignmask + 1);
	accel_align = impl->required_alignment;
	int nops = 1 + pick("ops", 3);
	std::unique_ptr<DataCompressionStream> cs; std::unique_ptr<DataDecompressionStream> ds;
	for (int k = 0; k <= nops; k++) {
		bool last = k == nops;
		device_health(!last && pick("sick", 3) > 0);
		if (pick("direct", 4) == 0) { direct_op(); continue; }
		if (!cs || pick("newstreams", 3) == 0) {
			Lib l;
			cs.reset(); ds.reset();
			unsigned a, b; { User u; a = 1 + pick("cworkers", 4); b = 1 + pick("dworkers", 4); }
			cs.reset(new DataCompressionStream(*impl, a, thread_policy::use_defaults, logger, logger));
			ds.reset(new DataDecompressionStream(*impl, b, thread_policy::use_defaults, logger, logger));
			User u; if (a > 1 || b > 1) nontrivial();
		}
		stream_op(cs.get(), ds.get(), 1 + pick("blocks", 3));
	}
	{ Lib l; if (pick("destroyorder", 2)) ds.reset(); cs.reset(); ds.reset(); }
	for (size_t i = 0; i < files.size(); i++)
		if (files[i].open && files[i].tid != tl_tid) violate("descriptor-leaked", "descriptor %zu of worker %d still open after its stream was destroyed", i, files[i].tid);
}
static void c22()
{
	set_sched_params(200 + pick("memden", 2000), 1, 1 + pick("syncden", 5));
	set_step_budget(300000, 6000000);
	nulls = new std::ostream(&nullbuf);
	engine_compress = eng_compress; engine_decompress = eng_decompress;
	aix = pick("aix", 3) == 2;
	static const uint16_t masks[] = {127, 0, 7, 4095, 8191, 0xffff};
	dev_alignmask = masks[pick("mask", 6)];
	if (rare("lowfd", 2, 1, 8)) { FD0 = 0; probe("descriptor-zero"); }
	fault_den = 2 + pick("faultden", 30);
	inject_tss_create = !aix && chance("tssc", 1, 20);
	sample("%s, device mask %d, fault rate 1/%u", aix ? "AIX" : "cryptodev", dev_alignmask, fault_den);
	// (the application's main thread, whose own session ends with it)
	std::thread t(application);
	t.join();
	for (size_t i = 0; i < files.size(); i++) if (files[i].open) violate("descriptor-leaked", "descriptor %zu of thread %d still open", i, files[i].tid);
	if (accel_in_use) violate("harness", "accelerator in use");
	if (lib_live_count()) violate("leak", "%llu allocation(s) left: %s", (unsigned long long)lib_live_count(), lib_live_describe().c_str());
	if (sessions_ever > 1) probe("several-sessions");
}
namespace sim {
const Scenario scenarios[] = {{"C22", c22, "data-race", nullptr}};
const int num_scenarios = 1;
}
