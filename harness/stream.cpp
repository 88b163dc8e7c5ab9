// Streams under simulation: real DataCompressionStream / DataDecompressionStream,
// simulated threads, transport, allocator, codec faults, NUMA topology.
#include "../sim/sim.h"
#include <lib842/stream/comp.h>
#include <lib842/stream/decomp.h>
#include <lib842/sw.h>

#include <errno.h>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <deque>
#include <functional>
#include <memory>
#include <ostream>
#include <bitset>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace sim;
using lib842::stream::Block;
using lib842::stream::BLOCK_SIZE;
using lib842::stream::CHUNK_SIZE;
using lib842::stream::NUM_CHUNKS_PER_BLOCK;
using lib842::stream::COMPRESSIBLE_THRESHOLD;
using lib842::stream::DataCompressionStream;
using lib842::stream::DataDecompressionStream;
using lib842::stream::thread_policy;

#define nosim_get_sw get_sw842_implementation
#define nosim_get_optsw get_optsw842_implementation

// ------------------------------------------------------------------ config
enum Aspect { A_ROUNDTRIP, A_ONCE, A_FINAL, A_ERROR, A_CANCEL, A_EPOCH, A_REUSE, A_RACE, A_ALLOC, A_NUMA };
static Aspect aspect;

// ------------------------------------------------------------------ memory
static uint8_t *big_alloc(size_t n)
{
	NoFault nf; User u;
	return (uint8_t *)aligned_alloc(4096, (n + 4095) & ~(size_t)4095);
}

// ------------------------------------------------------------------ data
// A chunk is either "structured" (word j = mix(tag + j)) or arbitrary.
static uint64_t fastmix(uint64_t x) { x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; return x; }
static void gen_structured(uint64_t tag, uint8_t *p)
{
	uint64_t *w = (uint64_t *)p;
	w[0] = tag;
	for (size_t j = 1; j < CHUNK_SIZE / 8; j++) w[j] = fastmix(tag + j);
}
static bool is_structured(const uint8_t *p)
{
	const uint64_t *w = (const uint64_t *)p;
	uint64_t tag = w[0];
	if ((tag & 0xffff) != 0x5742) return false;
	for (size_t j = 1; j < CHUNK_SIZE / 8; j++) if (w[j] != fastmix(tag + j)) return false;
	return true;
}
// compressed size encoded in the tag, so that every source decides its own shape
static size_t structured_size(uint64_t tag)
{
	switch ((tag >> 16) & 15) {
	case 0: return 24;
	case 1: return COMPRESSIBLE_THRESHOLD;
	case 2: return COMPRESSIBLE_THRESHOLD - 8;
	case 3: return COMPRESSIBLE_THRESHOLD + 8; // "compressed" but too big to be worth it
	case 4: return CHUNK_SIZE;
	default: return 24 + 8 * ((tag >> 20) & 1023);
	}
}

enum DataKind { D_STRUCT, D_RANDOM, D_MIXED, D_REAL };
static uint64_t data_ctr;
static void fill_source(uint8_t *p, size_t size, int kind)
{
	for (size_t c = 0; c < (size + CHUNK_SIZE - 1) / CHUNK_SIZE; c++) {
		size_t n = size - c * CHUNK_SIZE < CHUNK_SIZE ? size - c * CHUNK_SIZE : CHUNK_SIZE;
		uint64_t r = data64(++data_ctr, 1);
		bool st = kind == D_STRUCT || (kind == D_MIXED && (r & 3));
		uint8_t tmp[CHUNK_SIZE];
		if (kind == D_REAL) {
			// shapes the real codecs care about
			uint64_t *w = (uint64_t *)tmp;
			int shape = r % 7;
			for (size_t j = 0; j < CHUNK_SIZE / 8; j++) {
				uint64_t x = mix64(r + j);
				switch (shape) {
				case 0: w[j] = 0; break;
				case 1: w[j] = x; break;                                  // incompressible
				case 2: w[j] = (x % 17) * 0x0101010101010101ull; break;
				case 3: w[j] = j < 4000 ? r : x; break;
				case 4: w[j] = mix64(x % 40); break;
				case 5: w[j] = (x & 0xffff0000ffff0000ull) | (r & 0xffff); break;
				default: w[j] = (j % 5 == 0) ? x : mix64(j / 9); break;
				}
			}
		} else if (st) {
			gen_structured((r & ~0xffffull) | 0x5742, tmp);
		} else {
			uint64_t *w = (uint64_t *)tmp;
			for (size_t j = 0; j < CHUNK_SIZE / 8; j++) w[j] = fastmix(r ^ (j * 0x1234567));
			w[0] &= ~0xffffull;
		}
		memcpy(p + c * CHUNK_SIZE, tmp, n);
	}
}

// ------------------------------------------------------------------ codec
// Stub codec: lossless for structured chunks, "no space" for anything else.
struct Blob { uint64_t magic, tag, check; };
static const uint64_t MAGIC = 0x3234387562757473ull;
static int stub_compress1(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen)
{
	if (ilen != CHUNK_SIZE || !is_structured(in)) { return -ENOSPC; }
	uint64_t tag; memcpy(&tag, in, 8);
	size_t n = structured_size(tag);
	if (n > *olen) return -ENOSPC;
	Blob b = {MAGIC, tag, mix64(tag ^ n)};
	memset(out, 0x6b, n < 256 ? n : 256);
	memcpy(out, &b, sizeof b);
	if (n > sizeof b) out[n - 1] = 0x77;
	*olen = n;
	return 0;
}
static int stub_decompress1(const uint8_t *in, size_t ilen, uint8_t *out, size_t *olen)
{
	Blob b;
	if (ilen < sizeof b) { *olen = 0; return -EINVAL; }
	memcpy(&b, in, sizeof b);
	if (b.magic != MAGIC || b.check != mix64(b.tag ^ structured_size(b.tag)) || structured_size(b.tag) != ilen) { *olen = 0; return -EINVAL; }
	if (*olen < CHUNK_SIZE) { *olen = 0; return -ENOSPC; }
	gen_structured(b.tag, out);
	*olen = CHUNK_SIZE;
	return 0;
}

enum Codec { C_STUB, C_SW, C_OPTSW };
static const lib842_implementation *codec_of(int c) { return c == C_SW ? nosim_get_sw() : nosim_get_optsw(); }
struct Side {
	int codec;
	int in_flight;                 // codec calls running now
	uint64_t calls, hard_faults;   // faults that must fail the operation
	bool inject;                   // hard codec errors
	uint32_t inj_den;
	bool codec_alloc;              // allocations inside the real codec may fail
};
static Side comp_side, dec_side;
static bool codec_faults_stopped;
static std::set<const uint8_t *> not_compressed; // chunks a fault kept from being compressed

// slow workers: a codec call or callback that takes long, in some runs
static bool slow_workers;
static void maybe_slow(const char *what)
{
	if (!slow_workers || !chance("slow", 1, 4)) return;
	fault(what);
	for (uint64_t n = 1 + pick("slowness", 60); n > 0; n--) yield_user();
}

static const int hard_errs[] = {-EINVAL, -EIO, -ENOMEM, -EAGAIN, -EBUSY, 5};

static int run_chunks(Side &s, bool comp, size_t n, int *rets, const uint8_t *in, size_t istride, const size_t *ilens,
		      uint8_t *out, size_t ostride, size_t *olens)
{
	User u;
	s.in_flight++; s.calls += n;
	sync_point("codec", 0);
	maybe_slow("slow-codec-call");
	int batch = 0;
	uint64_t fk = s.inject && !codec_faults_stopped ? rare(comp ? "cfault" : "dfault", 8, 1, s.inj_den) : 0;
	size_t at = fk ? pick("faultchunk", n) : 0;
	if (fk == 1) { // the whole batch call fails, per-chunk codes never written
		fault(comp ? "compress-batch-fails" : "decompress-batch-fails");
		s.hard_faults++;
		sync_point("codec-end", 0);
		s.in_flight--;
		return hard_errs[pick("errno", 6)];
	}
	if (s.codec == C_STUB) {
		for (size_t i = 0; i < n; i++) {
			if (ilens[i] == SIZE_MAX) continue;
			if (i % 4 == 0) sync_point("chunk", i);
			if (olens[i] > (n > 1 ? ostride : CHUNK_SIZE)) violate("capacity", "chunk %zu: the codec may write %zu bytes into a slot of %zu", i, olens[i], ostride);
			rets[i] = comp ? stub_compress1(in + i * istride, ilens[i], out + i * ostride, &olens[i])
				       : stub_decompress1(in + i * istride, ilens[i], out + i * ostride, &olens[i]);
			if (batch == 0 && rets[i] != 0 && rets[i] != -ENOSPC) { batch = rets[i]; if (!comp) s.hard_faults++; }
		}
	} else {
		const lib842_implementation *im = codec_of(s.codec);
		if (s.codec_alloc && !alloc_faults_stopped) { // library allocations of the real codec may fail
			uint64_t f0 = alloc_failures();
			Lib l;
			batch = comp ? im->compress_chunked(n, rets, in, istride, ilens, out, ostride, olens)
				     : im->decompress_chunked(n, rets, in, istride, ilens, out, ostride, olens);
			if (alloc_failures() != f0) s.hard_faults++;
		} else {
			batch = comp ? im->compress_chunked(n, rets, in, istride, ilens, out, ostride, olens)
				     : im->decompress_chunked(n, rets, in, istride, ilens, out, ostride, olens);
		}
		sync_point("chunks", 0);
	}
	if (fk >= 2) {
		size_t i = at;
		for (size_t k = 0; k < n && ilens[i] == SIZE_MAX; k++) i = (i + 1) % n;
		if (ilens[i] != SIZE_MAX) {
			if (fk == 2 || (fk != 3 && comp)) { // one chunk fails hard
				int e = hard_errs[pick("errno", 6)];
				rets[i] = e; olens[i] = 0; if (!batch) batch = e;
				fault(comp ? "compress-chunk-fails" : "decompress-chunk-fails");
				s.hard_faults++;
			} else if (fk == 3 && comp) { // merely not compressible: not an error
				rets[i] = -ENOSPC;
				not_compressed.insert(in + i * istride);
				fault("compress-chunk-nospace");
			} else if (!comp && (fk == 3 || fk == 4)) { // chunk does not fit: reported per chunk only
				rets[i] = -ENOSPC; olens[i] = 0;
				fault("decompress-chunk-nospace");
				s.hard_faults++;
			} else if (!comp && fk == 5) { // decodes to the wrong length
				olens[i] = CHUNK_SIZE - 8 * (1 + pick("shortlen", 64));
				fault("decompress-chunk-short");
				s.hard_faults++;
			} else {
				rets[i] = -EINVAL; olens[i] = 0; if (!batch) batch = -EINVAL;
				fault("decompress-chunk-invalid");
				s.hard_faults++;
			}
		}
	}
	sync_point("codec-end", 0);
	s.in_flight--;
	return batch;
}
static int comp_chunked(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol)
{ return run_chunks(comp_side, true, n, rets, in, is, il, out, os, ol); }
static int dec_chunked(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol)
{ return run_chunks(dec_side, false, n, rets, in, is, il, out, os, ol); }
static int single_unused(const uint8_t *, size_t, uint8_t *, size_t *) { violate("harness", "unexpected single-chunk call"); }
// A stream may also use the single-chunk functions of its implementation
static int comp_single(const uint8_t *in, size_t il, uint8_t *out, size_t *ol) { int r = 0; int b = comp_chunked(1, &r, in, 0, &il, out, 0, ol); return r ? r : b; }
static int dec_single(const uint8_t *in, size_t il, uint8_t *out, size_t *ol) { int r = 0; int b = dec_chunked(1, &r, in, 0, &il, out, 0, ol); return r ? r : b; }

// reference decoding of one chunk of an emitted block (never faulty)
static bool decode_chunk(const Block &b, size_t i, int codec, uint8_t *out)
{
	User u; NoFault nf;
	if (b.sizes[i] == CHUNK_SIZE) return false;
	const uint8_t *d = b.get_chunk_buffer() ? b.get_chunk(i) : nullptr;
	if (!d) return false;
	size_t ol = CHUNK_SIZE;
	int r;
	if (codec == C_STUB) r = stub_decompress1(d, b.sizes[i], out, &ol);
	else r = nosim_get_sw()->decompress(d, b.sizes[i], out, &ol);
	return r == 0 && ol == CHUNK_SIZE;
}

// ------------------------------------------------------------------ logging seam
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
static NullBuf nullbuf;
static std::ostream *nulls;
static std::ostream &logger() { return *nulls; }

// ------------------------------------------------------------------ waiting
struct Gate { // harness-side event
	sem_t s; bool done = false;
	Gate() { sem_init(&s, 0, 0); }
	void open() { done = true; sem_post(&s); }
	void wait() { sem_wait(&s); }
};

// ------------------------------------------------------------------ transport
struct Packet { std::unique_ptr<Block> b; };

// ------------------------------------------------------------------ compression operation model
struct CompOp {
	uint8_t *src = nullptr; size_t size = 0, nblocks = 0;
	bool open = false, cancelled = false, finished = false, status = false;
	int finals = 0;
	std::vector<int> delivered;     // per block
	std::vector<uint64_t> begin_seq, end_seq;
	std::vector<Block> held;        // blocks kept by the user
	int in_callback = 0, errors = 0;
	bool finalize_in_cb = false; uint64_t finalize_after = 0; bool finalize_issued = false;
	uint64_t epoch = 0;             // 0: none (in blocks)
	uint64_t ncb = 0;
	int codec = 0;
	bool hold = true;
	bool cancel_flag = false;
	uint64_t hard_before = 0;
	int64_t stopped_at = -1; unsigned workers = 0; // codec calls when the operation was cancelled or failed
	Gate done;
	std::function<void(Block &&)> sink;
	std::function<void()> next;     // run inside the finalize callback
	void *watch_lo = nullptr;
};
static uint64_t evseq;
static bool stream_destroyed_comp, stream_destroyed_dec;

static unsigned comp_workers, dec_workers;
// From now on every worker may begin the block it has taken already, and no other
template <class Op> static void stop_work(Op &op, const Side &s) { if (op.stopped_at < 0) op.stopped_at = (int64_t)s.calls; }
template <class Op> static void judge_stopped(Op &op, const Side &s, unsigned workers, const char *what)
{
	if (op.stopped_at >= 0 && s.calls > (uint64_t)op.stopped_at + workers * NUM_CHUNKS_PER_BLOCK)
		violate("work-goes-on", "%s: %llu chunks begun by %u workers after the operation had been cancelled or had failed", what, (unsigned long long)(s.calls - op.stopped_at), workers);
}
static void check_block_content(const Block &b, const CompOp &op, const char *when)
{
	static uint8_t tmp[CHUNK_SIZE];
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
		if (b.sizes[i] == CHUNK_SIZE) {
			const uint8_t *c = op.src + b.offset + i * CHUNK_SIZE;
			if (op.codec == C_STUB && is_structured(c) && structured_size(*(const uint64_t *)c) <= COMPRESSIBLE_THRESHOLD && !not_compressed.count(c))
				violate("not-compressed", "%s: chunk %zu of the block at %zu is stored verbatim although it compresses to %zu bytes", when, i, b.offset, structured_size(*(const uint64_t *)c));
			continue;
		}
		if (b.sizes[i] == 0 || b.sizes[i] > COMPRESSIBLE_THRESHOLD)
			violate("block-chunk-size", "%s: block at %zu chunk %zu has size %zu", when, b.offset, i, b.sizes[i]);
		if (!b.get_chunk_buffer()) violate("block-no-data", "%s: block at %zu chunk %zu claims %zu compressed bytes but has no buffer", when, b.offset, i, b.sizes[i]);
		if (!lib_is_live(b.get_chunk_buffer())) violate("block-buffer-freed", "%s: buffer of block at %zu is not live memory", when, b.offset);
		if (!decode_chunk(b, i, op.codec, tmp) || memcmp(tmp, op.src + b.offset + i * CHUNK_SIZE, CHUNK_SIZE))
			violate("block-content", "%s: block at %zu chunk %zu (size %zu) does not decode to the source", when, b.offset, i, b.sizes[i]);
	}
}

static void on_block(CompOp &op, Block &&b, DataCompressionStream *cs)
{
	User u;
	event("block", b.offset / BLOCK_SIZE, tl_tid);
	{ // abstract state: which blocks are out or being handed over, what is in flight
		uint64_t h = op.ncb;
		for (size_t i = 0; i < op.delivered.size() && i < 40; i++) h = mix64(h * 4 + op.delivered[i] * 2 + (op.end_seq[i] != 0));
		state(mix64(h ^ (uint64_t)op.in_callback << 8 ^ (uint64_t)comp_side.in_flight << 16 ^ (uint64_t)op.errors << 24 ^ (uint64_t)op.cancelled << 32 ^ (uint64_t)op.finished << 33 ^ (uint64_t)op.finalize_issued << 34 ^ op.epoch << 40));
	}
	if (stream_destroyed_comp) violate("callback-after-destroy", "block callback after the stream was destroyed");
	if (!op.open) violate("callback-outside-operation", "block callback (offset %zu) %s", b.offset, op.finished ? "after the finalize callback" : "before start");
	op.in_callback++; op.ncb++;
	uint64_t seq0 = ++evseq;
	if (b.offset == SIZE_MAX) {
		op.errors++;
		stop_work(op, comp_side);
		probe("error-block");
		if (comp_side.hard_faults == op.hard_before && alloc_failures() == 0) violate("spurious-error-block", "error block although nothing failed");
	} else {
		if (b.offset % BLOCK_SIZE || b.offset / BLOCK_SIZE >= op.nblocks) violate("block-bad-offset", "block with offset %zu for a source of %zu bytes", b.offset, op.size);
		size_t k = b.offset / BLOCK_SIZE;
		if (op.delivered[k]++) violate("block-duplicate", "block %zu delivered %d times", k, op.delivered[k]);
		op.begin_seq[k] = seq0;
		if (op.epoch && op.errors == 0 && !op.cancel_flag) {
			size_t e = k / op.epoch * op.epoch;
			for (size_t j = 0; j < e; j++)
				if (!op.delivered[j] || !op.end_seq[j])
					violate("epoch-order", "block %zu (epoch %zu) handed over before block %zu was", k, k / op.epoch, j);
		}
		if (b.source != op.src + b.offset) violate("block-source", "block %zu does not refer to its source region", k);
		check_block_content(b, op, "in callback");
		sync_point("user", k);
		maybe_slow("slow-callback");
	}
	size_t off = b.offset;
	if (op.sink) op.sink(std::move(b));
	else if (op.hold && off != SIZE_MAX) op.held.push_back(std::move(b));
	sync_point("user2", 0);
	if (off != SIZE_MAX) op.end_seq[off / BLOCK_SIZE] = ++evseq;
	if (op.finalize_in_cb && !op.finalize_issued && op.ncb >= op.finalize_after && cs) {
		op.finalize_issued = true;
		probe("finalize-from-callback");
		bool c = op.cancelled;
		if (c) op.cancel_flag = true;
		Lib l;
		cs->finalize(c, [&op](bool ok) {
			User uu;
			if (op.in_callback > 0) violate("finalize-too-early", "finalize callback while %d block callbacks run", op.in_callback);
			op.finals++; op.status = ok; op.finished = true; op.open = false;
			if (op.finals > 1) violate("finalize-twice", "finalize callback invoked %d times", op.finals);
			judge_stopped(op, comp_side, comp_workers, "compression");
			op.done.open();
		});
		User uu;
		if (c) stop_work(op, comp_side);
	}
	op.in_callback--;
}

static void on_final(CompOp &op, bool ok)
{
	User u;
	event("comp-final", ok, op.ncb);
	state(mix64(0xc0 ^ (uint64_t)ok << 8 ^ op.ncb << 9 ^ op.nblocks << 24 ^ (uint64_t)op.cancelled << 40 ^ (uint64_t)op.errors << 41 ^ (uint64_t)comp_side.in_flight << 50));
	if (stream_destroyed_comp) violate("callback-after-destroy", "finalize callback after the stream was destroyed");
	if (op.finals++) violate("finalize-twice", "finalize callback invoked %d times", op.finals);
	if (op.in_callback > 0) violate("finalize-too-early", "finalize callback while %d block callbacks run", op.in_callback);
	if (comp_side.in_flight > 0) violate("finalize-too-early", "finalize callback while %d codec calls run", comp_side.in_flight);
	op.status = ok; op.finished = true; op.open = false;
	judge_stopped(op, comp_side, comp_workers, "compression");
	if (op.next) op.next();
	op.done.open();
}

// verdict once the finalize callback of a compression operation has run
static void judge_comp(CompOp &op)
{
	size_t nd = 0;
	for (auto d : op.delivered) nd += d;
	bool failed = comp_side.hard_faults != op.hard_before;
	if (op.errors && op.status) violate("error-not-reported", "compression reported success although %d block(s) failed", op.errors);
	if (failed && op.status && !op.cancelled) violate("error-not-reported", "compression reported success although the codec failed");
	if (failed && op.status) violate("error-not-reported", "cancelled compression reported success although the codec failed");
	if (failed && !op.errors) violate("no-error-block", "codec failed but no erroneous block was handed over");
	if (!failed && alloc_failures() == 0 && !op.cancelled && !op.status) violate("spurious-failure", "compression reported failure although nothing failed");
	if (op.status && !op.cancelled && nd != op.nblocks) violate("block-lost", "success reported but %zu of %zu blocks delivered", nd, op.nblocks);
	if (!op.status) probe("comp-failed-op");
	if (op.cancelled) { probe("comp-cancelled-op"); if (nd < op.nblocks) probe("comp-cancel-dropped-work"); }
	for (auto &b : op.held) check_block_content(b, op, "after completion");
}

static void watch_late(const void *p, size_t n, bool wr)
{
	violate("access-after-completion", "thread %d %s the operation's memory after completion (%zu bytes)", tl_tid, wr ? "writes" : "reads", n);
	(void)p;
}

// ------------------------------------------------------------------ decompression operation model
struct DecOp {
	uint8_t *dst = nullptr, *arena = nullptr; size_t nblocks = 0;
	bool open = false, finished = false, status = false, cancelled = false;
	int finals = 0;
	bool error_noticed = false;
	std::vector<int> pushed;        // accepted pushes per block
	std::vector<int> expect;        // block must be present if successful
	const uint8_t *src = nullptr;
	int refused = 0, accepted = 0;
	int damaged = 0;                // accepted blocks with damage that must be noticed
	int maybe = 0;                  // blocks with damage that may or may not show
	uint64_t hard_before = 0, calls_at_final = 0;
	int64_t stopped_at = -1;
	std::vector<std::vector<uint8_t>> staged;
	Gate done;
	std::function<void()> next;
};
static const size_t GUARD = 65536;
static DecOp *cur_dec;

static std::ostream &dec_logger()
{
	// called (by the worker that noticed it) after the error has been recorded
	if (cur_dec) { cur_dec->error_noticed = true; stop_work(*cur_dec, dec_side); probe("dec-error-noticed"); }
	return *nulls;
}

static void dec_alloc_dst(DecOp &op, size_t nblocks)
{
	op.nblocks = nblocks;
	op.arena = big_alloc(nblocks * BLOCK_SIZE + 2 * GUARD);
	op.dst = op.arena + GUARD;
	memset(op.arena, 0xee, nblocks * BLOCK_SIZE + 2 * GUARD);
	op.pushed.assign(nblocks, 0); op.expect.assign(nblocks, 0);
}
static bool all_ee(const uint8_t *p, size_t n)
{
	const uint64_t *w = (const uint64_t *)p;
	for (size_t i = 0; i < n / 8; i++) if (w[i] != 0xeeeeeeeeeeeeeeeeull) return false;
	return true;
}
static void on_dec_final(DecOp &op, bool ok)
{
	User u;
	event("dec-final", ok, op.accepted);
	state(mix64(0xd0 ^ (uint64_t)ok << 8 ^ (uint64_t)op.accepted << 9 ^ (uint64_t)op.refused << 24 ^ (uint64_t)op.cancelled << 40 ^ (uint64_t)op.damaged << 41 ^ (uint64_t)dec_side.in_flight << 50));
	if (stream_destroyed_dec) violate("callback-after-destroy", "finalize callback after the stream was destroyed");
	if (op.finals++) violate("finalize-twice", "finalize callback invoked %d times", op.finals);
	if (dec_side.in_flight > 0) violate("finalize-too-early", "finalize callback while %d codec calls run", dec_side.in_flight);
	op.status = ok; op.finished = true; op.open = false;
	op.calls_at_final = dec_side.calls;
	judge_stopped(op, dec_side, dec_workers, "decompression");
	if (op.next) op.next();
	op.done.open();
}
static void judge_dec(DecOp &op)
{
	bool failed = dec_side.hard_faults != op.hard_before;
	if (failed && op.status) violate("error-not-reported", "decompression reported success although a chunk failed");
	if (op.damaged && op.status && !op.cancelled) violate("error-not-reported", "decompression reported success although %d damaged block(s) were pushed", op.damaged);
	if (!failed && !op.damaged && !op.maybe && alloc_failures() == 0 && !op.status && !op.cancelled) violate("spurious-failure", "decompression reported failure although nothing failed");
	if (op.refused && op.status) violate("refused-but-success", "%d blocks were refused but success was reported", op.refused);
	if (!all_ee(op.arena, GUARD) || !all_ee(op.dst + op.nblocks * BLOCK_SIZE, GUARD)) violate("outside-write", "memory outside the destination was modified");
	for (size_t k = 0; k < op.nblocks; k++) {
		const uint8_t *d = op.dst + k * BLOCK_SIZE;
		if (!op.pushed[k]) {
			if (!op.expect[k] && !all_ee(d, BLOCK_SIZE)) violate("outside-write", "destination of block %zu was modified although it was never pushed", k);
			continue;
		}
		if (op.status && !op.cancelled && memcmp(d, op.src + k * BLOCK_SIZE, BLOCK_SIZE)) {
			size_t i = 0;
			while (d[i] == op.src[k * BLOCK_SIZE + i]) i++;
			violate("data-mismatch", "success reported but block %zu differs from the original at byte %zu", k, i);
		}
	}
	if (!op.status) probe("dec-failed-op");
	if (op.cancelled) probe("dec-cancelled-op");
}

// Rebuild a block as if it had travelled over a network
static Block clone_block(const Block &b, DecOp &op, int mode)
{
	NoFault nf;
	Block c;
	c.offset = b.offset; c.source = nullptr; c.sizes = b.sizes;
	size_t maxsz = 8; bool anyc = false;
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
		if (b.sizes[i] && b.sizes[i] != CHUNK_SIZE) { anyc = true; if (b.sizes[i] > maxsz) maxsz = b.sizes[i]; }
	}
	c.chunk_padding = (mode & 1) ? ((maxsz + 7) & ~(size_t)7) : CHUNK_SIZE;
	if (anyc) {
		uint8_t *buf;
		{ Lib l; buf = c.allocate_buffer(64, (c.chunk_padding + 63) & ~(size_t)63); }
		for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++)
			if (b.sizes[i] && b.sizes[i] != CHUNK_SIZE)
				memcpy(buf + i * c.chunk_padding, b.get_chunk(i), b.sizes[i]);
	}
	// verbatim chunks: staged on the way (the block refers to them), or placed at the destination by
	// the application itself, which may do that with any other chunk, too
	uint64_t gaps = 0;
	if (mode < 2) {
		for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) if (b.sizes[i] == CHUNK_SIZE) gaps |= 1ull << i;
	} else if (mode >= 4) gaps = pick("gaps", 1ull << NUM_CHUNKS_PER_BLOCK);
	uint8_t *s = nullptr;
	size_t ngap = 0, nverb = 0;
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
		if (!b.sizes[i]) continue;
		if (gaps >> i & 1) {
			memcpy(op.dst + b.offset + i * CHUNK_SIZE, op.src + b.offset + i * CHUNK_SIZE, CHUNK_SIZE);
			c.sizes[i] = 0;
			ngap++;
		} else if (b.sizes[i] == CHUNK_SIZE) {
			if (!s) {
				User u;
				op.staged.emplace_back(BLOCK_SIZE);
				c.source = s = op.staged.back().data();
			}
			memcpy(s + i * CHUNK_SIZE, b.get_chunk(i), CHUNK_SIZE);
			nverb++;
		}
	}
	if (ngap) probe("gap-chunks");
	if (nverb) probe("verbatim-staged");
	if (ngap && nverb) probe("gaps-and-verbatim-in-a-block");
	return c;
}

// Damage a block on its way. Returns true if the damage must be noticed.
static bool damage_block(Block &b, int codec)
{
	std::vector<size_t> comp;
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) if (b.sizes[i] && b.sizes[i] != CHUNK_SIZE) comp.push_back(i);
	uint64_t kind = pick("dmgkind", 8);
	if (comp.empty() || kind == 7) {
		// impossible size
		size_t i = pick("dmgchunk", NUM_CHUNKS_PER_BLOCK);
		static const size_t bad[] = {CHUNK_SIZE + 1, COMPRESSIBLE_THRESHOLD + 1, CHUNK_SIZE - 1, SIZE_MAX, SIZE_MAX - 1, (size_t)1 << 32, CHUNK_SIZE * 2};
		b.sizes[i] = bad[pick("dmgsize", 7)];
		fault("block-impossible-size");
		return true;
	}
	size_t i = comp[pick("dmgchunk", comp.size())];
	uint8_t *d = const_cast<uint8_t *>(b.get_chunk_buffer()) + i * b.chunk_padding;
	size_t n = b.sizes[i];
	switch (kind) {
	case 0: case 1: { // flip bits inside the part that carries information
		size_t lim = codec == C_STUB ? 24 : n;
		size_t pos = pick("dmgpos", lim);
		d[pos] ^= 1u << pick("dmgbit", 8);
		if (kind == 1) d[pick("dmgpos", lim)] ^= (uint8_t)(1 + pick("dmgval", 255));
		fault("block-bytes-flipped");
		return codec == C_STUB; // a real chunk may still decode to the original (padding): judged by content
	}
	case 2: // truncated: the tail never arrived
		b.sizes[i] = codec == C_STUB ? pick("dmgtrunc", n - 1) + 1 : (pick("dmgtrunc", (n - 1) / 8 + 1) * 8 + 1);
		if (b.sizes[i] >= n) b.sizes[i] = n - 1;
		if (b.sizes[i] == 0) b.sizes[i] = 1;
		fault("block-truncated");
		return codec == C_STUB;
	case 3: // torn: tail replaced by something else
		memset(d + n / 2, 0xa5, n - n / 2);
		if (codec == C_STUB) memset(d, 0xa5, 24);
		fault("block-torn");
		return codec == C_STUB;
	case 4: { // two chunks of the block swapped
		size_t j = comp[pick("dmgchunk", comp.size())];
		if (j == i || codec != C_STUB || b.sizes[i] == b.sizes[j]) {
			memset(d, 0, 24 < n ? 24 : n);
			fault("block-zeroed");
			return true;
		}
		std::swap(b.sizes[i], b.sizes[j]);
		fault("block-sizes-swapped");
		return true;
	}
	case 5: // claims to be verbatim, but there is no source
		b.sizes[i] = CHUNK_SIZE; b.source = nullptr;
		fault("block-verbatim-without-source");
		return true;
	default: // data lost, sizes kept
		b.release_buffer();
		fault("block-buffer-lost");
		return true;
	}
}

// ------------------------------------------------------------------ run set-up
static lib842_implementation comp_impl, dec_impl;

static int64_t at_join;
static void lib_joins() { if (at_join < 0) at_join = (int64_t)(comp_side.calls + dec_side.calls); }
static void setup_common()
{
	{ NoFault nf; static std::ostream s(&nullbuf); nulls = &s; }
	on_lib_join = lib_joins;
	slow_workers = chance("slowworkers", 1, 3);
	comp_impl = {comp_single, dec_single, comp_chunked, dec_chunked, 8, 64};
	dec_impl = comp_impl;
}
static size_t pick_align(const char *s) { static const size_t a[] = {64, 1, 8, 16, 4096, 65536}; return a[pick(s, 6)]; }

static thread_policy pol = thread_policy::use_defaults;

static DataCompressionStream *new_comp(unsigned n)
{
	Lib l;
	comp_workers = n;
	return new DataCompressionStream(comp_impl, n, pol, logger, logger);
}
static DataDecompressionStream *new_dec(unsigned n)
{
	Lib l;
	dec_workers = n;
	return new DataDecompressionStream(dec_impl, n, pol, dec_logger, logger);
}
template <class S> static void del_(S *s, bool &flag, unsigned workers, const char *what)
{
	event("destroy", workers);
	at_join = -1;
	{ Lib l; delete s; }
	flag = true;
	event("destroyed", workers);
	uint64_t n = comp_side.calls + dec_side.calls;
	if (at_join >= 0 && n > (uint64_t)at_join + workers * NUM_CHUNKS_PER_BLOCK)
		violate("work-goes-on", "%s: %llu chunks begun by %u workers while the destructor was waiting for them", what, (unsigned long long)(n - at_join), workers);
}
static void del(DataCompressionStream *s) { del_(s, stream_destroyed_comp, comp_workers, "compression stream"); }
static void del(DataDecompressionStream *s) { del_(s, stream_destroyed_dec, dec_workers, "decompression stream"); }

static void start_comp(DataCompressionStream *cs, CompOp &op)
{
	op.open = true;
	op.hard_before = comp_side.hard_faults;
	Lib l;
	CompOp *o = &op;
	cs->start(op.src, op.size, [o, cs](Block &&b) { on_block(*o, std::move(b), cs); });
}
static void fin_comp(DataCompressionStream *cs, CompOp &op, bool cancel)
{
	if (op.finalize_issued) return;
	op.finalize_issued = true;
	op.cancelled = cancel;
	if (cancel) op.cancel_flag = true;
	Lib l;
	CompOp *o = &op;
	cs->finalize(cancel, [o](bool ok) { on_final(*o, ok); });
	User u;
	if (cancel && !op.finished) stop_work(op, comp_side);
}
static void make_source(CompOp &op, size_t nblocks, size_t tail, int kind, int codec)
{
	op.nblocks = nblocks; op.size = nblocks * BLOCK_SIZE + tail; op.codec = codec;
	op.src = big_alloc(op.size + 64);
	fill_source(op.src, op.size, kind);
	op.delivered.assign(nblocks, 0); op.begin_seq.assign(nblocks, 0); op.end_seq.assign(nblocks, 0);
}
static size_t pick_nblocks(int max) { return pick("nblocks", max + 1); }
static size_t pick_tail()
{
	static const size_t t[] = {0, 1, 4096, CHUNK_SIZE, BLOCK_SIZE - 1};
	return t[pick("tail", 5)];
}
static bool many_ok = true; // race detection keeps to few threads
static unsigned pick_threads(const char *s)
{
	static const unsigned t[] = {1, 2, 3, 4, 2, 3, 5, 8}, many[] = {9, 12, 16, 17, 31, 33, 64, 65, 100, 128, 257, 300};
	if (many_ok && rare("manythreads", 2, 1, 60)) { probe("large-team"); return many[pick(s, 12)]; }
	return t[pick(s, 8)];
}
template <typename S> static void wait_ready(S &s)
{
	{ Lib l; s.wait_until_ready(); }
	if (threads_not_begun()) violate("not-ready", "wait_until_ready returned although %d workers have not started", threads_not_begun());
	probe("waited-until-ready");
}
static void leak_check(const char *what)
{
	if (live_threads() != 1) violate("threads-left", "%s: %d threads still alive after destruction", what, live_threads() - 1);
	if (lib_live_count()) violate("leak", "%s: %llu allocations (%llu bytes) never released: %s", what, (unsigned long long)lib_live_count(), (unsigned long long)lib_live_bytes(), lib_live_describe().c_str());
}
static void stall(int max) { for (uint64_t n = pick("stall", max); n > 0; n--) yield_user(); }

// runs fn on a harness thread
struct Helper { std::function<void()> f; pthread_t t; };
static void *helper_main(void *p) { tl_lib = 0; ((Helper *)p)->f(); return nullptr; }
static void spawn(Helper &h, std::function<void()> f) { h.f = std::move(f); pthread_create(&h.t, nullptr, helper_main, &h); }

static void pick_codecs(bool allow_real)
{
	uint64_t c = allow_real ? rare("codec", 5, 1, 8) : 0; // 0 stub, 1 sw/sw 2 sw/opt 3 opt/sw 4 opt/opt
	comp_side.codec = c == 0 ? C_STUB : c <= 2 ? C_SW : C_OPTSW;
	dec_side.codec = c == 0 ? C_STUB : (c == 1 || c == 3) ? C_SW : C_OPTSW;
	if (c) probe("real-codec");
}
static int pick_kind() { return comp_side.codec == C_STUB ? (int)pick("kind", 3) : D_REAL; }

// ------------------------------------------------------------------ compression only
static void apply_epoch(DataCompressionStream *cs, CompOp &op, uint64_t blocks)
{
	op.epoch = blocks;
	Lib l;
	cs->set_offset_sync_epoch_multiple(blocks * BLOCK_SIZE);
}

static void run_comp_ops()
{
	setup_common();
	pick_codecs(aspect == A_ONCE);
	size_t pa = pick_align("calign");
	comp_impl.preferred_alignment = pa;
	unsigned nt = pick_threads("cthreads");
	if (aspect == A_NUMA) pol = thread_policy::spread_threads_among_numa_nodes;
	bool inject = aspect == A_ERROR || ((aspect == A_FINAL || aspect == A_REUSE || aspect == A_EPOCH || aspect == A_RACE || aspect == A_CANCEL) && chance("inject", 1, 3));
	comp_side.inject = inject; comp_side.inj_den = 3;
	DataCompressionStream *cs = new_comp(nt);
	if (chance("waitready", 1, 2)) wait_ready(*cs);
	uint64_t epoch = 0;
	if (aspect == A_EPOCH || chance("useepoch", 1, 5)) epoch = 1ull << pick("epoch", 3);
	int nops = 1 + (aspect == A_REUSE ? 1 + pick("nops", 3) : pick("nops", 2));
	bool chain = aspect == A_REUSE ? chance("chain", 1, 2) : chance("chain", 1, 6);
	int maxb = comp_side.codec != C_STUB ? 2 : aspect == A_EPOCH ? 9 : 5;
	std::vector<std::unique_ptr<CompOp>> ops;
	for (int i = 0; i < nops; i++) {
		ops.emplace_back(new CompOp);
		CompOp &op = *ops.back();
		size_t nb = aspect == A_EPOCH ? pick("nblocks", 9) + 1 : pick_nblocks(maxb);
		make_source(op, nb, pick_tail(), pick_kind(), comp_side.codec);
		op.hold = chance("hold", 3, 4);
	}
	sample("compression: %u threads, codec %d, %d ops, epoch %llu%s, blocks", nt, comp_side.codec, nops, (unsigned long long)epoch, chain ? " chained" : "");
	for (auto &o : ops) sample("%zu", o->nblocks);
	size_t total = 0;
	std::vector<int> cancel(nops), fmode(nops);
	for (int i = 0; i < nops; i++) {
		bool last = i == nops - 1;
		cancel[i] = (aspect == A_CANCEL || ((aspect == A_REUSE || aspect == A_FINAL) && !(last && aspect == A_REUSE))) ? chance("cancel", 1, 3) : aspect == A_RACE || aspect == A_EPOCH ? chance("cancel", 1, 5) : 0;
		fmode[i] = pick("finmode", 4); // 0 right after start, 1 after a stall, 2 after all blocks, 3 from a callback
		CompOp &op = *ops[i];
		op.epoch = epoch;
		if (fmode[i] == 3 && op.nblocks) { op.finalize_in_cb = true; op.finalize_after = 1 + pick("finafter", op.nblocks); op.cancelled = cancel[i]; }
		total += op.nblocks;
		if (cancel[i]) fault("cancel");
	}
	if (epoch) apply_epoch(cs, *ops[0], epoch);
	if (total > 1 && nt > 1) nontrivial();
	if (aspect == A_EPOCH && epoch) for (auto &o : ops) if (o->nblocks > epoch) probe("epoch-crossed");

	if (chain && nops > 1) {
		// next operation started from inside the previous one's finalize callback
		probe("chained-start");
		for (int i = 0; i + 1 < nops; i++) {
			CompOp *n = ops[i + 1].get(), *o = ops[i].get();
			bool c = cancel[i + 1];
			o->finalize_in_cb = false; n->finalize_in_cb = false;
			o->next = [cs, n, o, c] { judge_comp(*o); if (!comp_side.inject || chance("stopfaults", 1, 2)) codec_faults_stopped = true; start_comp(cs, *n); fin_comp(cs, *n, c); };
		}
		start_comp(cs, *ops[0]);
		stall(6);
		fin_comp(cs, *ops[0], cancel[0]);
		for (auto &o : ops) o->done.wait();
		judge_comp(*ops.back());
	} else {
		for (int i = 0; i < nops; i++) {
			CompOp &op = *ops[i];
			if (aspect == A_REUSE && i == nops - 1) codec_faults_stopped = true;
			if (i && chance("newepoch", 1, 4)) { apply_epoch(cs, op, epoch = pick("epoch", 4) ? 1ull << pick("epoch", 3) : 0); probe("epoch-changed"); }
			op.epoch = epoch;
			start_comp(cs, op);
			if (fmode[i] == 1) stall(40);
			else if (fmode[i] == 2) { while (op.ncb < op.nblocks && !op.errors) yield_user(); probe("all-blocks-before-finalize"); } // (a hang if they never come)
			if (op.finalize_in_cb) {
				// fall back to a normal finalize if the callback was never reached far enough
				for (int k = 0; k < 3000 && !op.finalize_issued; k++) yield_user();
			}
			if (!op.finalize_issued) fin_comp(cs, op, cancel[i]);
			op.done.wait();
			judge_comp(op);
			// nothing of this operation may be touched any more
			if (chance("watchsrc", 1, 2) && i == nops - 1) {
				watch(op.src, op.src + op.size, watch_late);
				stall(20);
			}
		}
	}
	// blocks outlive the stream in some runs
	bool outlive = chance("outlive", 1, 2);
	if (!outlive) for (auto &o : ops) o->held.clear();
	stall(10);
	del(cs);
	watch(nullptr, nullptr, nullptr);
	if (outlive) {
		for (auto &o : ops) { for (auto &b : o->held) check_block_content(b, *o, "after the stream's destruction"); if (!o->held.empty()) probe("blocks-outlive-stream"); o->held.clear(); }
	}
	leak_check("compression stream");
}

// ------------------------------------------------------------------ full pipeline
struct Pipe {
	DataCompressionStream *cs = nullptr;
	DataDecompressionStream *ds = nullptr;
	CompOp *c = nullptr; DecOp *d = nullptr;
	std::deque<std::unique_ptr<Block>> net;
	bool comp_done = false, stop = false;
	int pump_mode = 0;
	bool damage = false; uint32_t dmg_den = 4;
	int delivering = 0;
};
static void deliver(Pipe &p, Block &&b)
{
	User u;
	DecOp &d = *p.d;
	size_t k = b.offset / BLOCK_SIZE;
	bool dmg = false;
	int codec = comp_side.codec;
	uint64_t tm = pick("carry", 7); // 0 as is, 1..6 re-built from the wire
	Block blk;
	if (tm == 0) blk = std::move(b); else blk = clone_block(b, d, (int)tm - 1);
	bool dup = tm != 0 && aspect != A_RACE && chance("dup", 1, 8); // (two copies in flight write the same memory)
	if (p.damage && chance("damage", 1, p.dmg_den)) {
		if (tm == 0) { blk = clone_block(blk, d, 2); }
		dmg = damage_block(blk, codec);
		if (!dmg) d.maybe++;
	}
	bool noticed_before = d.error_noticed;
	d.pushed[k]++;
	if (dmg) d.damaged++;
	bool ok;
	{
		Lib l;
		ok = p.ds->push_block(std::move(blk));
	}
	event("push", k, ok);
	if (cur_dec) state(mix64(0xe0 ^ (uint64_t)k << 8 ^ (uint64_t)ok << 20 ^ (uint64_t)cur_dec->accepted << 24 ^ (uint64_t)dec_side.in_flight << 40 ^ (uint64_t)cur_dec->finished << 50));
	if (ok) d.accepted++;
	else {
		d.refused++; probe("push-refused");
		if (!d.error_noticed && dec_side.hard_faults == d.hard_before && !d.damaged && !d.maybe && alloc_failures() == 0)
			violate("spurious-refusal", "block %zu refused although nothing failed", k);
		if (dmg) d.damaged--;
	}
	if (ok && noticed_before) violate("push-after-error", "block %zu accepted after the error had been noticed", k);
	if (dup && ok && !dmg) {
		fault("block-duplicated");
		Block c2;
		{ CompOp &o = *p.c; (void)o; c2 = clone_block(b, d, (int)tm - 1); }
		noticed_before = d.error_noticed;
		Lib l;
		if (!p.ds->push_block(std::move(c2))) { User uu; d.refused++; }
		else { User uu; d.accepted++; if (noticed_before) violate("push-after-error", "block %zu accepted after the error had been noticed", k); }
	}
}
static bool pump_one(Pipe &p)
{
	if (p.net.empty()) return false;
	size_t i = rare("netorder", p.net.size(), 1, 2);
	if (i) fault("block-reordered");
	std::unique_ptr<Block> b = std::move(p.net[i]);
	p.net.erase(p.net.begin() + i);
	p.delivering++;
	deliver(p, std::move(*b));
	p.delivering--;
	return true;
}

static void run_pipeline()
{
	setup_common();
	pick_codecs(aspect == A_ROUNDTRIP || aspect == A_ERROR);
	comp_impl.preferred_alignment = pick_align("calign");
	unsigned ct = pick_threads("cthreads"), dt = pick_threads("dthreads");
	bool inject = aspect == A_ERROR || ((aspect == A_FINAL || aspect == A_REUSE || aspect == A_RACE) && chance("inject", 1, 3));
	if (aspect == A_NUMA) pol = thread_policy::spread_threads_among_numa_nodes;
	dec_side.inject = inject && chance("dinject", 1, 2); dec_side.inj_den = 4;
	comp_side.inject = inject && chance("cinject", 1, 4); comp_side.inj_den = 5;
	Pipe p;
	p.damage = inject && chance("dodamage", 2, 3);
	p.dmg_den = 1 + pick("dmgden", 4);
	p.cs = new_comp(ct);
	p.ds = new_dec(dt);
	if (chance("waitready", 1, 2)) { { Lib l; p.cs->wait_until_ready(); } wait_ready(*p.ds); }
	int nops = 1 + (aspect == A_REUSE ? 1 + pick("nops", 2) : rare("nops", 3, 1, 4));
	int maxb = comp_side.codec != C_STUB ? 2 : 4;
	p.pump_mode = pick("pump", 3); // 0: pushed straight from the block callback, 1: main thread pumps, 2: helper thread pumps
	sample("pipeline: %u+%u threads, codecs %d/%d, %d ops, pump %d", ct, dt, comp_side.codec, dec_side.codec, nops, p.pump_mode);
	std::vector<std::unique_ptr<CompOp>> cops; std::vector<std::unique_ptr<DecOp>> dops;
	for (int n = 0; n < nops; n++) {
		cops.emplace_back(new CompOp); dops.emplace_back(new DecOp);
		CompOp &c = *cops.back(); DecOp &d = *dops.back();
		if (aspect == A_REUSE && n == nops - 1) { codec_faults_stopped = true; p.damage = false; }
		make_source(c, pick_nblocks(maxb) + (maxb > 2), pick_tail(), pick_kind(), comp_side.codec);
		dec_alloc_dst(d, c.nblocks);
		d.src = c.src;
		for (size_t k = 0; k < c.nblocks; k++) d.expect[k] = 1;
		sample("blocks %zu", c.nblocks);
		if (c.nblocks > 1 && ct + dt > 2) nontrivial();
		p.c = &c; p.d = &d; p.comp_done = false; cur_dec = &d;
		bool cancel = (aspect == A_CANCEL || aspect == A_FINAL || (aspect == A_REUSE && n < nops - 1)) ? chance("cancel", 1, 3) : 0;
		bool early_start = chance("decstart", 1, 2);
		d.hard_before = dec_side.hard_faults;
		d.open = true;
		Pipe *pp = &p;
		c.sink = [pp](Block &&b) {
			if (b.offset == SIZE_MAX) return;
			if (pp->pump_mode == 0) deliver(*pp, std::move(b));
			else pp->net.emplace_back(new Block(std::move(b)));
		};
		if (early_start) { Lib l; p.ds->start(d.dst); }
		start_comp(p.cs, c);
		Helper h;
		bool helper = p.pump_mode == 2;
		if (helper) {
			p.stop = false;
			spawn(h, [pp] {
				for (;;) {
					if (!pump_one(*pp)) { if (pp->stop) break; yield_user(); }
					else if (rare("netdelay", 2, 1, 3)) { fault("block-delayed"); stall(8); }
				}
			});
		}
		if (!early_start) { stall(12); Lib l; p.ds->start(d.dst); }
		fin_comp(p.cs, c, false);
		if (p.pump_mode == 1) { while (!c.finished) { if (!pump_one(p)) { yield_user(); if (!c.finished && p.net.empty() && chance("nap", 1, 4)) drain_others(); } } }
		c.done.wait();
		judge_comp(c);
		if (helper) { p.stop = true; pthread_join(h.t, nullptr); }
		while (pump_one(p)) {}
		// lost blocks: some never arrive (only when nothing is expected of them)
		d.cancelled = cancel;
		if (cancel) fault("cancel");
		stall(10);
		{
			DecOp *dd = &d;
			Lib l;
			p.ds->finalize(cancel, [dd](bool ok) { on_dec_final(*dd, ok); });
			User u;
			if (cancel && !d.finished) stop_work(d, dec_side);
		}
		d.done.wait();
		judge_dec(d);
		if (d.accepted) probe("dec-ops-with-data");
		if (c.status && d.status && !cancel)
			for (size_t k = 0; k < c.nblocks; k++)
				if (memcmp(d.dst + k * BLOCK_SIZE, c.src + k * BLOCK_SIZE, BLOCK_SIZE)) violate("data-mismatch", "everything succeeded but block %zu differs", k);
		if (n == nops - 1) watch(d.dst, d.dst + d.nblocks * BLOCK_SIZE, watch_late);
		stall(10);
	}
	if (chance("decfirst", 1, 2)) { del(p.ds); watch(nullptr, nullptr, nullptr); del(p.cs); }
	else { del(p.cs); watch(nullptr, nullptr, nullptr); del(p.ds); }
	cur_dec = nullptr;
	leak_check("pipeline");
}

// ------------------------------------------------------------------ decompression only: many operations on one stream
static Block stub_block(const uint8_t *src, size_t k)
{
	Block b; b.offset = k * BLOCK_SIZE; b.source = src + b.offset; b.chunk_padding = CHUNK_SIZE;
	uint8_t *buf; { NoFault nf; Lib l; buf = b.allocate_buffer(64, CHUNK_SIZE); }
	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
		size_t ol = CHUNK_SIZE;
		int r = stub_compress1(src + b.offset + i * CHUNK_SIZE, CHUNK_SIZE, buf + i * CHUNK_SIZE, &ol);
		b.sizes[i] = r == 0 && ol <= COMPRESSIBLE_THRESHOLD ? ol : CHUNK_SIZE;
	}
	return b;
}
struct DecRun {
	DataDecompressionStream *ds = nullptr;
	std::vector<std::unique_ptr<DecOp>> ops;
	std::vector<int> inject, damage, cancel, split, where; // where: 0 all from the controlling thread, 1 start and some blocks from the callback, 2 everything from the callback, 3 start and pushes by a second thread
	std::vector<int> prestart;
};
static void dec_push(DecRun &r, int i, size_t k)
{
	DecOp &d = *r.ops[i];
	Block b = stub_block(d.src, k);
	bool dmg = false;
	uint64_t m = pick("carry", 7);
	if (m) { b = clone_block(b, d, (int)m - 1); }
	if (r.damage[i] && chance("damage", 1, r.damage[i])) { if (!m) b = clone_block(b, d, 2); dmg = damage_block(b, C_STUB); }
	bool noticed = d.error_noticed;
	d.pushed[k]++;
	if (dmg) d.damaged++;
	bool ok;
	{ Lib l; ok = r.ds->push_block(std::move(b)); }
	event("push", k, ok);
	state(mix64(0xe1 ^ (uint64_t)i << 8 ^ (uint64_t)ok << 20 ^ (uint64_t)d.accepted << 24 ^ (uint64_t)dec_side.in_flight << 40 ^ (uint64_t)k << 50));
	if (ok) d.accepted++;
	else {
		d.refused++; probe("push-refused");
		if (!d.error_noticed && dec_side.hard_faults == d.hard_before && !d.damaged && alloc_failures() == 0)
			violate("spurious-refusal", "block %zu of operation %d refused although nothing failed in it", k, i);
		if (dmg) d.damaged--;
	}
	if (ok && noticed) violate("push-after-error", "block %zu accepted after the error had been noticed", k);
}
static void dec_begin(DecRun &r, int i)
{
	DecOp &d = *r.ops[i];
	cur_dec = &d;
	dec_side.inject = r.inject[i] != 0; dec_side.inj_den = r.inject[i] ? r.inject[i] : 1;
	d.hard_before = dec_side.hard_faults; d.open = true;
}
static void dec_start(DecRun &r, int i) { Lib l; r.ds->start(r.ops[i]->dst); }
static void dec_fin(DecRun &r, int i)
{
	DecOp *dd = r.ops[i].get();
	dd->cancelled = r.cancel[i];
	if (r.cancel[i]) fault("cancel");
	Lib l;
	r.ds->finalize(r.cancel[i], [dd](bool ok) { on_dec_final(*dd, ok); });
	User u;
	if (r.cancel[i] && !dd->finished) stop_work(*dd, dec_side);
}
static void run_dec_ops()
{
	setup_common();
	comp_side.codec = dec_side.codec = C_STUB;
	unsigned nt = pick_threads("dthreads");
	DecRun r;
	r.ds = new_dec(nt);
	if (chance("waitready", 1, 3)) wait_ready(*r.ds);
	int nops = 2 + (int)pick("nops", 4);
	bool faulty = aspect != A_ROUNDTRIP;
	sample("decompression: %u threads, %d ops, blocks", nt, nops);
	DecRun *pr = &r;
	for (int i = 0; i < nops; i++) {
		bool last = i == nops - 1;
		r.ops.emplace_back(new DecOp);
		size_t nb = pick("nblocks", 5) + (last ? 1 : 0);
		CompOp c;
		make_source(c, nb, 0, (int)pick("kind", 3), C_STUB);
		dec_alloc_dst(*r.ops[i], nb); r.ops[i]->src = c.src;
		uint64_t what = faulty && !last ? pick("outcome", 5) : 0; // 0, 1 fine; 2 codec errors; 3 damaged blocks; 4 cancelled
		r.inject.push_back(what == 2 ? 1 + (int)pick("injden", 5) : 0);
		r.damage.push_back(what == 3 ? 1 + (int)pick("dmgden", 3) : 0);
		r.cancel.push_back(what == 4 || (what > 1 && chance("cancel", 1, 4)));
		r.split.push_back((int)pick("split", nb + 1));
		r.where.push_back((int)pick("where", 4));
		r.prestart.push_back((int)chance("prestart", 2, 3));
		sample("%zu/%d", nb, r.where[i]);
		if (i && nt > 1) nontrivial();
		if (what > 1) probe("op-follows-other-outcome");
	}
	r.where[0] &= ~1; if (r.where[0] == 2) r.where[0] = 0;
	for (int i = 1; i < nops; i++) if (r.where[i] == 1 || r.where[i] == 2) {
		DecOp *p = r.ops[i - 1].get();
		p->next = [pr, i, p] {
			// the next operation starts inside this one's finalize callback
			DecRun &r = *pr;
			probe("next-operation-from-callback");
			judge_dec(*p);
			dec_begin(r, i);
			size_t n = r.where[i] == 2 ? r.ops[i]->nblocks : (size_t)r.split[i];
			if (r.prestart[i]) dec_start(r, i);
			for (size_t k = 0; k < n; k++) { dec_push(r, i, k); stall(3); }
			if (!r.prestart[i]) dec_start(r, i);
			if (r.where[i] == 2) dec_fin(r, i); else stall(20);
		};
	}
	for (int i = 0; i < nops; i++) {
		DecOp &d = *r.ops[i];
		size_t nb = d.nblocks;
		if (r.where[i] == 0) {
			dec_begin(r, i);
			if (r.prestart[i]) dec_start(r, i);
			for (size_t k = 0; k < nb; k++) { dec_push(r, i, k); stall(4); }
			if (!r.prestart[i]) dec_start(r, i);
		} else if (r.where[i] == 1) {
			for (size_t k = r.split[i]; k < nb; k++) { dec_push(r, i, k); stall(4); }
		} else if (r.where[i] == 3) {
			dec_begin(r, i);
			if (r.prestart[i]) dec_start(r, i);
			Helper h;
			size_t sp = r.split[i];
			spawn(h, [pr, i, sp] { for (size_t k = 0; k < sp; k++) { dec_push(*pr, i, k); stall(3); } });
			for (size_t k = sp; k < nb; k++) { dec_push(r, i, k); stall(3); }
			if (chance("joinfirst", 1, 2)) pthread_join(h.t, nullptr), h.f = nullptr;
			if (!r.prestart[i]) dec_start(r, i);
			if (h.f) pthread_join(h.t, nullptr);
			probe("two-threads-push");
		}
		if (r.where[i] != 2) {
			stall(12);
			if (!r.inject[i] && !r.damage[i] && chance("allfirst", 1, 3)) {
				// everything pushed so far is processed without being asked for (a hang if not)
				probe("all-blocks-before-finalize");
				for (size_t k = 0; k < nb; k++) if (d.pushed[k])
					for (size_t c = 0; c < NUM_CHUNKS_PER_BLOCK; c++)
						while (memcmp(d.dst + k * BLOCK_SIZE + (c + 1) * CHUNK_SIZE - 8, d.src + k * BLOCK_SIZE + (c + 1) * CHUNK_SIZE - 8, 8)) yield_user();
			}
			dec_fin(r, i);
		}
		d.done.wait();
		bool chained = i + 1 < nops && (r.where[i + 1] == 1 || r.where[i + 1] == 2);
		if (!chained) judge_dec(d);
		if (i == nops - 1 && !d.cancelled)
			for (size_t k = 0; k < nb; k++)
				if (!d.status || memcmp(d.dst + k * BLOCK_SIZE, d.src + k * BLOCK_SIZE, BLOCK_SIZE)) violate("data-mismatch", "the last, undisturbed operation did not deliver block %zu (success %d)", k, d.status);
		if (!chained) stall(8);
	}
	DecOp &l = *r.ops.back();
	if (chance("watchdst", 1, 2)) watch(l.dst, l.dst + l.nblocks * BLOCK_SIZE, watch_late);
	stall(10);
	del(r.ds);
	watch(nullptr, nullptr, nullptr);
	cur_dec = nullptr;
	leak_check("decompression stream");
}

// ------------------------------------------------------------------ destruction at any point
// waits for a seeded moment: some time, or until one of the conditions holds (if it ever does)
template <class A, class B, class C> static void until(A a, B b, C c)
{
	uint64_t w = pick("destroywhen", 5);
	if (w < 2) { stall(80); return; }
	for (int i = 0; i < 300 && !(w == 2 ? a() : w == 3 ? b() : c()); i++) yield_user();
	stall(4);
}
static void run_destroy()
{
	setup_common();
	comp_side.codec = dec_side.codec = C_STUB;
	comp_impl.preferred_alignment = pick_align("calign");
	bool use_comp = aspect == A_EPOCH || chance("usecomp", 1, 2);
	unsigned nt = pick_threads("threads");
	fault("destroy-mid-operation");
	uint64_t phase = pick("phase", 5); // 0 right after construction 1 after start 2 after start+finalize 3 second op 4 mid-finalize of second
	comp_side.inject = dec_side.inject = chance("inject", 1, 3);
	comp_side.inj_den = dec_side.inj_den = 3;
	if (use_comp) {
		DataCompressionStream *cs = new_comp(nt);
		if (chance("waitready", 1, 3)) wait_ready(*cs);
		CompOp op, op2;
		uint64_t epoch = chance("useepoch", 1, 2) ? 1ull << pick("epoch", 3) : 0;
		make_source(op, pick_nblocks(aspect == A_EPOCH ? 9 : 6), 0, pick("kind", 3), C_STUB);
		make_source(op2, pick_nblocks(4), 0, pick("kind", 3), C_STUB);
		sample("destroy compression stream: %u threads, phase %llu, blocks %zu, epoch %llu", nt, (unsigned long long)phase, op.nblocks, (unsigned long long)epoch);
		if (epoch) { op2.epoch = epoch; apply_epoch(cs, op, epoch); if (op.nblocks > epoch || op2.nblocks > epoch) probe("destroy-with-several-epochs"); }
		if (op.nblocks && phase) nontrivial();
		CompOp *cur = &op;
		if (phase >= 1) { start_comp(cs, op); stall(60); }
		if (phase >= 2) { fin_comp(cs, op, chance("cancel", 1, 3)); stall(60); }
		if (phase >= 3) {
			op.done.wait(); judge_comp(op);
			cur = &op2;
			start_comp(cs, op2); stall(60);
			if (phase >= 4) { fin_comp(cs, op2, chance("cancel", 1, 3)); stall(30); }
		}
		until([&] { return comp_side.in_flight > 0; }, [&] { return cur->in_callback > 0; }, [&] { return cur->finished; });
		if (cur->open) probe("destroyed-while-open");
		if (comp_side.in_flight) probe("destroyed-while-compressing");
		if (cur->in_callback) probe("destroyed-while-in-callback");
		if (cur->finals) probe("destroyed-after-final");
		del(cs);
		if (cur->in_callback || comp_side.in_flight) violate("destroy-too-early", "destructor returned while workers still run");
		for (auto &b : op.held) check_block_content(b, op, "after destruction");
		op.held.clear(); op2.held.clear();
	} else {
		// blocks prepared up front
		CompOp op;
		size_t nb = pick("nblocks", 5);
		make_source(op, nb, 0, pick("kind", 3), C_STUB);
		DataDecompressionStream *ds = new_dec(nt);
		if (chance("waitready", 1, 3)) wait_ready(*ds);
		sample("destroy decompression stream: %u threads, phase %llu, blocks %zu", nt, (unsigned long long)phase, nb);
		if (nb && phase) nontrivial();
		DecOp d, d2;
		dec_alloc_dst(d, nb); d.src = op.src;
		dec_alloc_dst(d2, nb); d2.src = op.src;
		auto mk = [&](size_t k, DecOp &dd) {
			(void)dd;
			Block b; b.offset = k * BLOCK_SIZE; b.source = op.src + b.offset; b.chunk_padding = CHUNK_SIZE;
			uint8_t *buf; { NoFault nf; Lib l; buf = b.allocate_buffer(64, CHUNK_SIZE); }
			for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
				size_t ol = CHUNK_SIZE;
				int r = stub_compress1(op.src + b.offset + i * CHUNK_SIZE, CHUNK_SIZE, buf + i * CHUNK_SIZE, &ol);
				b.sizes[i] = r == 0 && ol <= COMPRESSIBLE_THRESHOLD ? ol : CHUNK_SIZE;
			}
			return b;
		};
		bool bad = chance("dodamage", 1, 3);
		auto feed = [&](DecOp &dd, size_t upto) {
			cur_dec = &dd;
			for (size_t k = 0; k < upto; k++) {
				Block b = mk(k, dd);
				bool dmg = bad && chance("damage", 1, 3) && (b = clone_block(b, dd, 2), damage_block(b, C_STUB));
				Lib l;
				bool ok = ds->push_block(std::move(b));
				User u;
				if (ok) { dd.pushed[k]++; dd.accepted++; if (dmg) dd.damaged++; } else dd.refused++;
				stall(4);
			}
		};
		if (phase >= 1) {
			bool pre = chance("decstart", 1, 2);
			d.open = true; d.hard_before = dec_side.hard_faults;
			if (pre) { Lib l; ds->start(d.dst); }
			feed(d, phase == 1 ? pick("feed", nb + 1) : nb);
			if (!pre && (phase > 1 || chance("neverstart", 1, 2))) { Lib l; ds->start(d.dst); }
			stall(60);
		}
		if (phase >= 2) {
			d.cancelled = chance("cancel", 1, 3);
			Lib l; DecOp *dd = &d;
			ds->finalize(d.cancelled, [dd](bool ok) { on_dec_final(*dd, ok); });
			User u;
			if (d.cancelled && !d.finished) stop_work(d, dec_side);
			stall(60);
		}
		if (phase >= 3) {
			d.done.wait(); judge_dec(d);
			d2.open = true; d2.hard_before = dec_side.hard_faults;
			{ Lib l; ds->start(d2.dst); }
			feed(d2, nb); stall(60);
			if (phase >= 4) {
				d2.cancelled = chance("cancel", 1, 3);
				Lib l; DecOp *dd = &d2;
				ds->finalize(d2.cancelled, [dd](bool ok) { on_dec_final(*dd, ok); });
			}
		}
		until([&] { return dec_side.in_flight > 0; }, [&] { return dec_side.in_flight > 1; }, [&] { return d.finished; });
		if (dec_side.in_flight) probe("destroyed-while-decompressing");
		del(ds);
		if (dec_side.in_flight) violate("destroy-too-early", "destructor returned while workers still run");
		cur_dec = nullptr;
	}
	stall(5);
	leak_check("destroyed stream");
}

// ------------------------------------------------------------------ allocation faults
static void run_alloc_stream()
{
	setup_common();
	pick_codecs(true);
	comp_side.codec_alloc = dec_side.codec_alloc = true;
	comp_impl.preferred_alignment = pick_align("calign");
	unsigned ct = 1 + pick("cthreads", 4), dt = 1 + pick("dthreads", 4);
	size_t nb = comp_side.codec == C_STUB ? 1 + pick("nblocks", 4) : 1;
	CompOp c; DecOp d;
	make_source(c, nb, 0, pick_kind(), comp_side.codec);
	dec_alloc_dst(d, nb); d.src = c.src;
	for (size_t k = 0; k < nb; k++) d.expect[k] = 1;
	sample("allocation faults: %u+%u threads, %zu blocks, codec %d", ct, dt, nb, comp_side.codec);
	// faults armed from construction on
	uint64_t mode = pick("allocmode", 3);
	if (mode == 0) { alloc_num = 1; alloc_den = 4 + pick("allocden", 40); }
	else if (mode == 1) alloc_fail_nth = 1 + pick("allocnth", 60);
	else { alloc_num = 1; alloc_den = 200; }
	inject_thread_create = chance("thrfaults", 1, 3);
	for (int round = 0; round < 2; round++) {
		if (round == 1) { alloc_faults_stopped = true; inject_thread_create = false; codec_faults_stopped = true; }
		stream_destroyed_comp = stream_destroyed_dec = false;
		DataCompressionStream *cs = nullptr; DataDecompressionStream *ds = nullptr;
		try { cs = new_comp(ct); ds = new_dec(dt); }
		catch (const std::exception &e) {
			tl_lib = 0;
			probe("constructor-threw");
			nontrivial();
			if (round == 1) violate("retry-failed", "construction fails without any fault: %s", e.what());
		}
		if (!ds) { if (cs) del(cs); leak_check("failed construction"); continue; }
		CompOp co; DecOp dop;
		co.src = c.src; co.size = c.size; co.nblocks = c.nblocks; co.codec = c.codec;
		co.delivered.assign(nb, 0); co.begin_seq.assign(nb, 0); co.end_seq.assign(nb, 0);
		dec_alloc_dst(dop, nb); dop.src = c.src;
		for (size_t k = 0; k < nb; k++) dop.expect[k] = 1;
		uint64_t f0 = alloc_failures();
		bool threw = false;
		cur_dec = &dop; dop.open = true; dop.hard_before = dec_side.hard_faults;
		int refused_by_exc = 0;
		try { start_comp(cs, co); fin_comp(cs, co, false); }
		catch (const std::bad_alloc &) { tl_lib = 0; threw = true; probe("start-threw"); }
		if (threw) {
			// the caller knows; nothing more can be expected of this stream but destruction
			nontrivial();
			del(cs); del(ds); co.held.clear(); leak_check("failed start"); continue;
		}
		co.done.wait();
		bool failed = alloc_failures() != f0;
		if (failed) { nontrivial(); probe("operation-with-failed-allocation"); }
		if (round == 1 && !co.status) violate("retry-failed", "compression fails with memory available again");
		size_t nd = 0;
		for (auto x : co.delivered) nd += x;
		if (co.status && nd != nb) violate("block-lost", "success reported but %zu of %zu blocks delivered", nd, nb);
		if (co.errors && co.status) violate("error-not-reported", "erroneous block handed over but success reported");
		for (auto &b : co.held) check_block_content(b, co, "after completion");
		bool ok = co.status;
		if (ok) {
			try {
				{ Lib l; ds->start(dop.dst); }
				for (auto &b : co.held) {
					size_t k = b.offset / BLOCK_SIZE;
					Lib l;
					bool r;
					try { r = ds->push_block(std::move(b)); }
					catch (const std::bad_alloc &) { User u; refused_by_exc++; probe("push-threw"); tl_lib = 1; continue; }
					User u;
					if (r) { dop.pushed[k]++; dop.accepted++; } else dop.refused++;
				}
				bool cancel = round == 0 && chance("cancel", 1, 4);
				dop.cancelled = cancel;
				Lib l; DecOp *dd = &dop;
				ds->finalize(cancel, [dd](bool o) { on_dec_final(*dd, o); });
			} catch (const std::bad_alloc &) { tl_lib = 0; threw = true; probe("decstart-threw"); }
			tl_lib = 0;
			if (!threw) {
				dop.done.wait();
				if (round == 1 && !dop.status) violate("retry-failed", "decompression fails with memory available again");
				if (dop.status && !dop.cancelled)
					for (size_t k = 0; k < nb; k++)
						if (dop.pushed[k] && memcmp(dop.dst + k * BLOCK_SIZE, c.src + k * BLOCK_SIZE, BLOCK_SIZE)) violate("data-mismatch", "success reported but block %zu differs", k);
			}
		}
		co.held.clear();
		cur_dec = nullptr;
		del(ds); del(cs);
		leak_check("stream under allocation faults");
	}
}

// ------------------------------------------------------------------ NUMA seam
struct NumaCfg { bool on; int avail; int maxnode; int nprocs, nconf; int present; std::bitset<1024> allowed; std::vector<std::vector<int>> cpus; int fail_query; int fail_aff; } numa_cfg;
struct AffCall { pthread_t t; cpu_set_t s; };
static std::vector<AffCall> aff_calls;
static int aff_failed;
struct bitmask_ { unsigned long size; unsigned long *maskp; };
extern "C" {
int numa_available(void) { return numa_cfg.avail; }
int numa_max_node(void) { return numa_cfg.maxnode; }
int numa_num_configured_nodes(void) { return numa_cfg.present; }
int numa_num_configured_cpus(void) { return numa_cfg.nconf; }
int numa_num_possible_cpus(void) { return 1024; }
int numa_max_possible_node(void) { return 1023; }
int get_nprocs(void) __THROW { return numa_cfg.nprocs; }
int get_nprocs_conf(void) __THROW { return numa_cfg.nconf; }
static bitmask_ *mk_mask() { User u; NoFault nf; bitmask_ *b = (bitmask_ *)malloc(sizeof *b); b->size = 1024; b->maskp = (unsigned long *)calloc(16, 8); return b; }
static int live_masks;
struct bitmask *numa_get_mems_allowed(void) { bitmask_ *b = mk_mask(); live_masks++; for (int n = 0; n < 1024; n++) if (numa_cfg.allowed[n]) b->maskp[n / 64] |= 1ul << (n % 64); return (struct bitmask *)b; }
struct bitmask *numa_allocate_cpumask(void) { live_masks++; return (struct bitmask *)mk_mask(); }
struct bitmask *numa_allocate_nodemask(void) { live_masks++; return (struct bitmask *)mk_mask(); }
void numa_bitmask_free(struct bitmask *b_) { User u; bitmask_ *b = (bitmask_ *)b_; if (!b) return; live_masks--; free(b->maskp); free(b); }
void numa_free_cpumask(struct bitmask *b) { numa_bitmask_free(b); }
int numa_bitmask_isbitset(const struct bitmask *b_, unsigned n) { const bitmask_ *b = (const bitmask_ *)b_; return n < b->size ? (b->maskp[n / 64] >> (n % 64)) & 1 : 0; }
struct bitmask *numa_bitmask_clearall(struct bitmask *b_) { bitmask_ *b = (bitmask_ *)b_; memset(b->maskp, 0, 128); return b_; }
int numa_node_to_cpus(int n, struct bitmask *b_)
{
	bitmask_ *b = (bitmask_ *)b_;
	if (numa_cfg.fail_query && (int)pick("nodequery", 4) == 1) { fault("numa-query-fails"); numa_cfg.fail_query = 2; errno = ENOENT; return -1; }
	memset(b->maskp, 0, 128);
	if (n < (int)numa_cfg.cpus.size()) for (int c : numa_cfg.cpus[n]) b->maskp[c / 64] |= 1ul << (c % 64);
	return 0;
}
int pthread_setaffinity_np(pthread_t t, size_t sz, const cpu_set_t *s) __THROW
{
	if (pol != thread_policy::spread_threads_among_numa_nodes) violate("placement", "thread restricted although spreading was not asked for");
	if (numa_cfg.fail_aff && chance("afffail", 1, 4)) { fault("setaffinity-fails"); aff_failed++; return EPERM; }
	cpu_set_t c; CPU_ZERO(&c); memcpy(&c, s, sz < sizeof c ? sz : sizeof c);
	bool any = false;
	for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &c)) any = true;
	if (!any) return EINVAL; // as the kernel does
	User u; NoFault nf;
	aff_calls.push_back({t, c});
	return 0;
}
}

static void run_numa()
{
	numa_cfg.avail = rare("numaavail", 2, 1, 6) ? -1 : 0;
	if (numa_cfg.avail) fault("numa-unavailable");
	int nn = 1 + pick("maxnode", 8);
	numa_cfg.nprocs = 1 + pick("nprocs", 64);
	// which numbers the nodes have: they need not be consecutive (POWER9: 0, 8, 252, 253, ...)
	std::vector<int> number;
	bool gaps = rare("nodegaps", 2, 1, 3);
	for (int n = 0, at = 0; n < nn; n++, at++) {
		if (gaps && chance("nodegap", 1, 2)) at += 1 + pick("gap", at < 200 && pick("widegap", 3) == 2 ? 100 : 8);
		number.push_back(at);
	}
	if (number.back() != nn - 1) probe("node-numbers-with-gaps");
	numa_cfg.maxnode = number.back();
	numa_cfg.present = nn;
	numa_cfg.allowed.reset();
	numa_cfg.cpus.resize(numa_cfg.maxnode + 1);
	// some nodes may have memory but no processors (memory of a GPU, CXL)
	std::vector<int> withcpus;
	bool memonly = nn > 1 && rare("memonly", 2, 1, 3);
	for (int n : number) if (!memonly || !chance("memonlynode", 1, 2)) withcpus.push_back(n);
	if (withcpus.empty()) withcpus.push_back(number[0]);
	// some processors may be offline: then the numbers of those online are not consecutive
	numa_cfg.nconf = numa_cfg.nprocs;
	bool sparse = rare("offlinecpus", 2, 1, 3);
	for (int c = 0, have = 0; have < numa_cfg.nprocs; c++) {
		numa_cfg.nconf = c + 1;
		if (sparse && c < 200 && pick("offline", 3) == 2) continue;
		numa_cfg.cpus[withcpus[pick("cpunode", withcpus.size())]].push_back(c);
		have++;
	}
	if (numa_cfg.nconf > numa_cfg.nprocs) probe("offline-processors");
	for (int n : number) if (!rare("memless", 2, 1, 5)) numa_cfg.allowed[n] = true;
	numa_cfg.fail_query = rare("failquery", 2, 1, 4);
	numa_cfg.fail_aff = rare("failaff", 2, 1, 4);
	pol = rare("nopolicy", 2, 1, 8) ? thread_policy::use_defaults : thread_policy::spread_threads_among_numa_nodes;
	sample("numa: avail %d nodes %d (highest %d, %zu with processors) cpus %d allowed %zu", numa_cfg.avail, nn, numa_cfg.maxnode, withcpus.size(), numa_cfg.nprocs, numa_cfg.allowed.count());
	// placement itself
	setup_common();
	comp_side.codec = dec_side.codec = C_STUB;
	unsigned nt = rare("manythreads", 2, 1, 12) ? 11 + pick("nthreads2", 150) : 1 + pick("nthreads", 10);
	std::vector<int> nodes;
	for (int n : number) if (numa_cfg.allowed[n]) {
		if (!numa_cfg.cpus[n].empty()) nodes.push_back(n); // (no thread can run on a node without processors)
		else probe("node-without-processors");
	}
	if (nodes.size() > 1 && nt > 1) nontrivial();
	bool failed_before = false;
	for (int which = 0; which < 2; which++) {
		aff_calls.clear(); int f0 = aff_failed;
		DataCompressionStream *cs = nullptr; DataDecompressionStream *ds = nullptr;
		stream_destroyed_comp = stream_destroyed_dec = false;
		if (which == 0) cs = new_comp(nt); else ds = new_dec(nt);
		bool query_failed = numa_cfg.fail_query == 2, clean = !query_failed && aff_failed == f0 && !failed_before;
		if (query_failed) failed_before = true;
		if (numa_cfg.avail == 0 && clean && !nodes.empty() && pol != thread_policy::use_defaults) {
			if (aff_calls.size() != nt) violate("placement", "%zu of %u threads placed", aff_calls.size(), nt);
			// every thread on exactly the processors of one node, the nodes' shares even
			std::map<std::set<int>, std::pair<unsigned, unsigned>> share; // processors: nodes with these, threads on these
			for (int n : nodes) share[std::set<int>(numa_cfg.cpus[n].begin(), numa_cfg.cpus[n].end())].first++;
			for (unsigned i = 0; i < nt; i++) {
				std::set<int> got;
				for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &aff_calls[i].s)) got.insert(c);
				auto it = share.find(got);
				if (it == share.end()) violate("placement", "thread %u is restricted to %zu processors that are not those of an allowed node", i, got.size());
				it->second.second++;
			}
			unsigned lo = nt / nodes.size(), hi = lo + (nt % nodes.size() != 0);
			for (auto &e : share)
				if (e.second.second < lo * e.second.first || e.second.second > hi * e.second.first)
					violate("placement", "%u of %u threads placed on %u of %zu nodes", e.second.second, nt, e.second.first, nodes.size());
			std::set<pthread_t> ts;
			for (auto &a : aff_calls) ts.insert(a.t);
			if (ts.size() != nt) violate("placement", "only %zu distinct threads placed", ts.size());
			probe("placed");
		}
		if (numa_cfg.avail == -1 && !aff_calls.empty()) violate("placement", "threads pinned although NUMA is not available");
		// the stream works all the same
		if (which == 0) {
			CompOp op; make_source(op, 1 + pick("nblocks", 2), 0, pick("kind", 3), C_STUB);
			start_comp(cs, op); fin_comp(cs, op, false); op.done.wait(); judge_comp(op); op.held.clear();
			del(cs);
		} else {
			CompOp op; make_source(op, 1, 0, D_RANDOM, C_STUB);
			DecOp d; dec_alloc_dst(d, 1); d.src = op.src; d.expect[0] = 1; cur_dec = &d; d.open = true; d.hard_before = 0;
			Block b; b.offset = 0; b.source = op.src; b.chunk_padding = CHUNK_SIZE; b.sizes.fill(CHUNK_SIZE);
			{ Lib l; ds->start(d.dst); ds->push_block(std::move(b)); }
			d.pushed[0] = 1;
			DecOp *dd = &d;
			{ Lib l; ds->finalize(false, [dd](bool ok) { on_dec_final(*dd, ok); }); }
			d.done.wait(); judge_dec(d);
			cur_dec = nullptr;
			del(ds);
		}
	}
	leak_check("numa");
}

// ------------------------------------------------------------------ more than 4 GiB in one operation
static const size_t PERIOD = 17 * BLOCK_SIZE; // (divides no power of two, so a truncated offset shows in the data)
static uint8_t *periodic_map(size_t size)
{
	NoFault nf; User u;
	int fd = memfd_create("src", 0);
	if (fd < 0 || ftruncate(fd, PERIOD)) violate("harness", "memfd");
	uint8_t *p = (uint8_t *)mmap(nullptr, size + PERIOD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) violate("harness", "address space");
	for (size_t o = 0; o < size; o += PERIOD)
		if (mmap(p + o, PERIOD, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) violate("harness", "mapping");
	close(fd);
	return p;
}
static void run_large_comp()
{
	setup_common();
	slow_workers = false;
	set_sched_params(100000, 1, 12);
	set_step_budget(20000000, 40000000);
	comp_side.codec = C_STUB;
	unsigned nt = pick_threads("cthreads");
	CompOp op;
	op.nblocks = 4096 + 1 + pick("more", 40); op.size = op.nblocks * BLOCK_SIZE + pick_tail(); op.codec = C_STUB;
	op.src = periodic_map(op.size);
	fill_source(op.src, PERIOD, D_RANDOM);
	for (int k = 0; k < 4; k++) fill_source(op.src + pick("structured", 17 * NUM_CHUNKS_PER_BLOCK) * CHUNK_SIZE, CHUNK_SIZE, D_STRUCT);
	op.delivered.assign(op.nblocks, 0); op.begin_seq.assign(op.nblocks, 0); op.end_seq.assign(op.nblocks, 0);
	op.hold = false;
	DataCompressionStream *cs = new_comp(nt);
	uint64_t epoch = aspect == A_EPOCH || chance("useepoch", 1, 3) ? chance("largeepoch", 1, 2) ? 2048ull << pick("epoch", 2) : 64ull << pick("epoch", 5) : 0;
	if (epoch) apply_epoch(cs, op, epoch);
	sample("compression of %zu blocks: %u threads, epoch %llu", op.nblocks, nt, (unsigned long long)epoch);
	probe("more-than-4-gib");
	nontrivial();
	start_comp(cs, op);
	if (chance("finlate", 1, 2)) while (op.ncb < op.nblocks) yield_user();
	fin_comp(cs, op, false);
	op.done.wait();
	judge_comp(op);
	del(cs);
	leak_check("compression stream");
}
static void run_large_dec()
{
	setup_common();
	comp_side.codec = dec_side.codec = C_STUB;
	unsigned nt = pick_threads("dthreads");
	size_t nblocks = 8192 + 8; // 8 GiB and a little
	uint8_t *dst;
	{ NoFault nf; User u; dst = (uint8_t *)mmap(nullptr, nblocks * BLOCK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (dst == MAP_FAILED) violate("harness", "address space"); }
	static const size_t marks[] = {0, 2047, 2048, 4095, 4096, 4097, 6144, 8191, 8192, 8199, 1, 17};
	std::set<size_t> where;
	for (size_t n = 2 + pick("nblocks", 5); n > 0; n--) where.insert(chance("mark", 3, 4) ? marks[pick("at", 12)] : pick("at", nblocks));
	std::vector<std::pair<size_t, uint8_t *>> blocks;
	for (size_t k : where) { uint8_t *s = big_alloc(BLOCK_SIZE); fill_source(s, BLOCK_SIZE, (int)pick("kind", 3)); blocks.push_back({k, s}); }
	DataDecompressionStream *ds = new_dec(nt);
	sample("decompression at blocks up to %zu: %u threads", *where.rbegin(), nt);
	probe("more-than-4-gib");
	nontrivial();
	DecOp d; d.open = true; d.hard_before = 0; cur_dec = &d; d.dst = dst; d.nblocks = nblocks;
	{ Lib l; ds->start(dst); }
	for (size_t n = blocks.size(); n > 0; n--) {
		size_t i = pick("order", n); std::swap(blocks[i], blocks[n - 1]);
		Block b = stub_block(blocks[n - 1].second - blocks[n - 1].first * BLOCK_SIZE, blocks[n - 1].first);
		bool ok; { Lib l; ok = ds->push_block(std::move(b)); }
		if (!ok) violate("spurious-refusal", "block %zu refused although nothing failed", blocks[n - 1].first);
		d.accepted++;
		stall(6);
	}
	DecOp *dd = &d;
	{ Lib l; ds->finalize(false, [dd](bool ok) { on_dec_final(*dd, ok); }); }
	d.done.wait();
	if (!d.status) violate("spurious-failure", "decompression reported failure although nothing failed");
	for (auto &b : blocks) if (memcmp(dst + b.first * BLOCK_SIZE, b.second, BLOCK_SIZE)) violate("data-mismatch", "success reported but block %zu differs from the original", b.first);
	// nothing else was touched: pages never touched are not there
	std::vector<unsigned char> in(BLOCK_SIZE / 4096);
	for (size_t k = 0; k < nblocks; k++) {
		if (where.count(k)) continue;
		User u; NoFault nf;
		if (mincore(dst + k * BLOCK_SIZE, BLOCK_SIZE, in.data()) == 0)
			for (size_t j = 0; j < in.size(); j++) if (in[j] & 1) {
				const uint64_t *w = (const uint64_t *)(dst + k * BLOCK_SIZE + j * 4096);
				for (size_t x = 0; x < 512; x++) if (w[x]) violate("outside-write", "destination of block %zu was modified although it was never pushed", k);
			}
	}
	del(ds);
	cur_dec = nullptr;
	leak_check("decompression stream");
}

// ------------------------------------------------------------------ scenarios
static void c01() { aspect = A_ROUNDTRIP; if (rare("large", 2, 1, 60)) run_large_dec(); else if (rare("which", 2, 1, 6)) run_dec_ops(); else run_pipeline(); }
static void c02() { aspect = A_ONCE; if (rare("large", 2, 1, 80)) run_large_comp(); else run_comp_ops(); }
static void c03() { aspect = A_FINAL; uint64_t w = pick("which", 5); if (w < 2) run_comp_ops(); else if (w < 4) run_pipeline(); else run_dec_ops(); }
static void c04() { aspect = A_ERROR; uint64_t w = pick("which", 6); if (w < 3) run_pipeline(); else if (w < 5) run_comp_ops(); else run_dec_ops(); }
static void c05() { aspect = A_CANCEL; uint64_t w = pick("which", 8); if (w == 7) run_dec_ops(); else if (w >= 5) run_comp_ops(); else if (w >= 4) run_pipeline(); else run_destroy(); }
static void c06() { aspect = A_EPOCH; if (rare("large", 2, 1, 60)) run_large_comp(); else if (rare("which", 2, 1, 4)) run_destroy(); else run_comp_ops(); }
static void c07() { aspect = A_REUSE; uint64_t w = pick("which", 3); if (w == 0) run_pipeline(); else if (w == 1) run_comp_ops(); else run_dec_ops(); }
static void c08() { aspect = A_RACE; many_ok = false; race_detection(true); uint64_t w = pick("which", 5); if (w == 0) run_comp_ops(); else if (w == 1) run_destroy(); else if (w == 2) run_dec_ops(); else run_pipeline(); }
static void c13() { aspect = A_ALLOC; run_alloc_stream(); }
static void c18() { aspect = A_NUMA; run_numa(); }

namespace sim {
const Scenario scenarios[] = {
	{"C01", c01, "work-goes-on,placement,leak,threads-left,callback-after-destroy,finalize-t,access-after,epoch,not-ready", nullptr},
	{"C02", c02, "work-goes-on,placement,leak,threads-left,callback-after-destroy,finalize-t,access-after,epoch,spurious-failure,not-ready", nullptr},
	{"C03", c03, "work-goes-on,placement,leak,threads-left,callback-after-destroy,epoch,block-,data-mismatch,outside-write,push-after", nullptr},
	{"C04", c04, "placement,leak,threads-left,callback-after-destroy,epoch,not-ready", nullptr},
	{"C05", c05, "placement,epoch,block-lost,spurious,error-not", nullptr},
	{"C06", c06, "work-goes-on,placement,leak,threads-left,callback-after-destroy,error-not,no-error,not-ready", nullptr},
	{"C07", c07, "work-goes-on,placement,leak,threads-left,epoch,not-ready", nullptr},
	{"C08", c08, nullptr, "data-race"},
	{"C13", c13, "work-goes-on,placement,not-ready", nullptr},
	{"C18", c18, "epoch,work-goes-on,not-ready", nullptr},
};
const int num_scenarios = sizeof(scenarios) / sizeof(scenarios[0]);
}
