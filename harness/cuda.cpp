// CUDA decompression kernel: the real source, compiled by clang to PTX and executed
// by a simulated device (ptx.h) whose every thread step, copy and launch is scheduled here.
#include "../sim/sim.h"
#include "ref842.h"
#include "ptx.h"
#include <lib842/sw.h>
#include <algorithm>
#include <memory>

using namespace sim;
using ref842::Bytes;
extern "C" const char *const cuda842_ptx;
extern "C" const int cuda842_chunk_size;

static const size_t GUARD = 4096;
static ptx::Module mod;

struct Buf { uint64_t addr; size_t size; uint8_t *host; std::vector<uint8_t> store; bool out; int launch; };
struct Launch;
struct Seg { uint64_t addr; size_t size; uint8_t *host; int buf; }; // mapped piece of device memory
struct Own { uint64_t writer, reader; };

struct Launch {
	int id; uint32_t grid[3], block[3];
	uint64_t in, out;              // device addresses
	std::vector<uint64_t> chunk;   // numbers of the chunks whose threads run
	std::vector<Bytes> stream, plain;
	std::vector<size_t> islot, oslot;
	std::vector<Bytes> dev_in, dev_out; // mapped device memory per chunk
	std::vector<Bytes> got;
	std::vector<std::vector<Own>> own;
	std::vector<uint64_t> params;
	std::vector<ptx::Thread> th;
	std::vector<std::vector<uint8_t>> shared;
	int stage = 0;                 // 0 copy in, 1 run, 2 copy out, 3 done
	size_t copied = 0, copy_off = 0;
	bool started = false; int aborted = 0;
	uint64_t seed;
	int mode; uint32_t quantum;
};
static std::vector<std::unique_ptr<Launch>> L;

static size_t slot_of(const Launch &l, uint64_t addr, int n, bool out)
{
	uint64_t base = out ? l.out : l.in, stride = out ? cuda842_chunk_size : cuda842_chunk_size * 2;
	if (addr < base) return SIZE_MAX;
	uint64_t num = (addr - base) / stride, off = (addr - base) % stride;
	auto f = std::lower_bound(l.chunk.begin(), l.chunk.end(), num);
	if (f == l.chunk.end() || *f != num) return SIZE_MAX;
	size_t k = f - l.chunk.begin();
	return off + n <= (out ? l.oslot[k] : l.islot[k]) ? k : SIZE_MAX;
}
static void where(const Launch &l, const ptx::Thread &t, char *buf, size_t n)
{
	snprintf(buf, n, "launch %d, thread for chunk %llu (grid %u, block %u)", l.id, (unsigned long long)t.gid, l.grid[0], l.block[0]);
}
static Launch *cur;
static void mload(ptx::Thread &t, uint64_t a, int n, uint64_t *v)
{
	Launch &l = *cur; char w[160];
	for (int o = 0; o < 2; o++) {
		size_t k = slot_of(l, a, n, o);
		if (k == SIZE_MAX) continue;
		uint64_t off = (a - (o ? l.out : l.in)) % (cuda842_chunk_size * (o ? 1 : 2));
		*v = 0;
		memcpy(v, (o ? l.dev_out[k] : l.dev_in[k]).data() + off, n);
		if (o) for (int b = 0; b < n; b++) {
			Own &w_ = l.own[k][off + b];
			if (w_.writer && w_.writer != t.gid + 1) { where(l, t, w, sizeof w); violate("cross-thread", "%s reads output of chunk %llu while that is being written", w, (unsigned long long)w_.writer - 1); }
			w_.reader = t.gid + 1;
		}
		return;
	}
	where(l, t, w, sizeof w);
	violate("device-out-of-bounds", "%s reads %d bytes at %+lld from the input, %+lld from the output", w, n, (long long)(a - l.in), (long long)(a - l.out));
}
static void mstore(ptx::Thread &t, uint64_t a, int n, uint64_t v)
{
	Launch &l = *cur; char w[160];
	size_t k = slot_of(l, a, n, true);
	if (k == SIZE_MAX) {
		where(l, t, w, sizeof w);
		if (slot_of(l, a, n, false) != SIZE_MAX) violate("input-modified", "%s writes to the compressed data", w);
		violate("device-out-of-bounds", "%s writes %d bytes at %+lld from the output", w, n, (long long)(a - l.out));
	}
	uint64_t off = (a - l.out) % cuda842_chunk_size;
	for (int b = 0; b < n; b++) {
		Own &o = l.own[k][off + b];
		if ((o.writer && o.writer != t.gid + 1) || (o.reader && o.reader != t.gid + 1)) { where(l, t, w, sizeof w); violate("cross-thread", "%s writes output that another thread of the launch uses", w); }
		o.writer = t.gid + 1;
	}
	memcpy(l.dev_out[k].data() + off, &v, n);
}

static void make_chunk(Launch &l, size_t maxlen)
{
	Bytes s, d;
	const size_t CS = cuda842_chunk_size;
	uint64_t r = bits64("data"), ctr = 0;
	switch (pick("writer", 4)) {
	case 0: case 1: { // a compressor of the library
		size_t len = pick("full", 3) ? maxlen : 8 * pick("len", maxlen / 8 + 1);
		d.resize(len);
		ref842::shape(mix64, data64(r, 3), pick("shape", ref842::NSHAPES), d.data(), len);
		s.resize(CS * 2 + 64);
		size_t ol = s.size();
		int w = pick("compressor", 2);
		int rc = w ? optsw842_compress(d.data(), len, s.data(), &ol) : sw842_compress(d.data(), len, s.data(), &ol);
		if (rc) violate("harness", "cannot prepare chunk: %d", rc);
		s.resize(ol);
		break;
	}
	default: { // any other writer of the format
		size_t nops = 1 + pick("ops", maxlen / 8);
		for (;; nops = nops * 2 / 3) {
			uint64_t r0 = r; ctr = 0;
			ref842::write_random([&](uint64_t m) { return data64(r0, ++ctr) % m; }, nops, false, (int)pick("flavour", 4), s, d);
			if (d.size() <= maxlen) break;
			r++;
		}
		break;
	}
	}
	while (s.size() % 8) s.push_back(0);
	l.stream.push_back(s); l.plain.push_back(d);
}

static void start(Launch &l)
{
	l.started = true; l.stage = 1;
	l.th.clear(); l.shared.clear();
	uint64_t nth = (uint64_t)l.block[0];
	for (size_t k = 0; k < l.chunk.size(); k++) {
		for (auto &o : l.own[k]) o = Own{0, 0};
		ptx::Thread t;
		uint32_t tid[3] = {(uint32_t)(l.chunk[k] % nth), 0, 0}, cta[3] = {(uint32_t)(l.chunk[k] / nth), 0, 0};
		t.gid = l.chunk[k]; t.block = cta[0];
		ptx::init(mod, t, tid, l.block, cta, l.grid, mix64, data64(l.seed, 1000 + k + l.aborted * 7777));
		l.th.push_back(t);
	}
	l.shared.resize(l.chunk.size(), Bytes(mod.shared, 0x6b));
	event("start", l.id, l.aborted);
}

static uint64_t total_steps;
// runs one device thread for a while
static void advance(Launch &l)
{
	std::vector<size_t> ready;
	bool bar = false, any = false;
	for (size_t k = 0; k < l.th.size(); k++) { if (l.th[k].done) continue; any = true; if (l.th[k].at_bar) bar = true; else ready.push_back(k); }
	if (ready.empty() && bar) { // (threads of a launch are treated as one block for barriers)
		for (auto &t : l.th) t.at_bar = false;
		return;
	}
	if (!any) { l.stage = 2; l.copied = 0; event("kernel-done", l.id); return; }
	size_t k = l.mode == 0 ? ready[0] : ready[pick("thread", ready.size())];
	ptx::Thread &t = l.th[k];
	uint64_t q = l.mode == 0 ? 1u << 20 : 1 + pick("quantum", l.quantum);
	cur = &l;
	ptx::Mem mem{mload, mstore, (const uint8_t *)l.params.data(), l.shared[k].data()};
	try {
		while (q-- && !t.done && !t.at_bar) { sync_point_cheap(); if (!ptx::step(mod, t, mem)) break; total_steps++; }
	} catch (ptx::Fault &f) {
		char w[160]; where(l, t, w, sizeof w);
		violate("device-fault", "%s: %s", w, f.what());
	}
	if (t.steps > 400000) violate("no-progress", "launch %d: the thread for chunk %llu has not ended after %llu instructions", l.id, (unsigned long long)t.gid, (unsigned long long)t.steps);
	if (t.done) { event("thread-done", l.id, k, t.steps); state(mix64(t.steps / 16) ^ l.plain[k].size()); }
}

static void step_launch(Launch &l)
{
	const char *phase = l.stage == 0 ? "copy-in" : "copy-out";
	if (l.stage == 1) {
		if (!l.started) {
			if (rare("launch-fails", 2, 1, 12)) { fault("launch-failed"); event("launch-failed", l.id); return; } // (the host tries again)
			start(l);
			return;
		}
		if (l.aborted < 3 && rare("abort", 2, 1, 4000)) { // the device is reset in the middle; the host launches again
			fault("kernel-aborted"); l.aborted++; l.started = false; event("abort", l.id);
			if (pick("scribble", 2)) for (size_t k = 0; k < l.chunk.size(); k++) for (size_t j = 0; j < l.dev_out[k].size(); j++) l.dev_out[k][j] = (uint8_t)data64(l.seed, j + l.aborted);
			return;
		}
		advance(l);
		return;
	}
	// copies go piece by piece
	size_t k = l.copied;
	if (k >= l.chunk.size()) { l.stage++; l.copied = 0; event(phase, l.id); return; }
	Bytes &from = l.stage == 0 ? l.stream[k] : l.dev_out[k], &to = l.stage == 0 ? l.dev_in[k] : l.got[k];
	size_t n = l.stage == 0 ? from.size() : l.oslot[k];
	size_t piece = l.mode == 0 ? n : 1 + pick("piece", n + 1);
	if (l.copy_off + piece > n) piece = n - l.copy_off;
	if (rare("copy-fails", 2, 1, 150)) { // starts over
		fault("copy-failed"); l.copied = 0; l.copy_off = 0; return;
	}
	memcpy(to.data() + l.copy_off, from.data() + l.copy_off, piece);
	l.copy_off += piece;
	if (l.copy_off >= n) { l.copied++; l.copy_off = 0; }
}

static void c21()
{
	const size_t CS = cuda842_chunk_size;
	try { mod = ptx::Parser().parse(cuda842_ptx); }
	catch (ptx::Unsupported &u) { violate("harness", "PTX not understood: %s", u.what()); }
	catch (ptx::Fault &f) { violate("device-fault", "kernel is not valid: %s", f.what()); }
	if (mod.param_size != std::vector<int>{8, 8}) violate("harness", "kernel parameters");
	int nl = 1 + pick("launches", 4), nstreams = 1 + pick("streams", 3);
	L.clear();
	uint64_t next = ptx::GLOBAL_BASE;
	std::vector<int> stream_of(nl);
	size_t chunks = 0, big = 0;
	for (int i = 0; i < nl; i++) {
		auto p = std::make_unique<Launch>(); Launch &l = *p;
		l.id = i; stream_of[i] = pick("stream", nstreams); l.seed = bits64("launch");
		for (int k = 1; k < 3; k++) l.grid[k] = l.block[k] = 1;
		size_t nt = 1 + pick("threads", chance("few", 1, 2) ? 4 : 33);
		uint64_t total;
		if (rare("huge", 2, 1, 4)) { // a big launch of which only some threads are looked at
			static const uint32_t bs[] = {32, 64, 96, 128, 192, 256, 512, 1024, 33};
			l.block[0] = bs[pick("blocksize", 9)];
			total = (uint64_t)l.block[0] * (1 + pick("gridsize", 1ull << (8 + pick("gridbits", 20))));
			if (total > 1ull << 31) total = (1ull << 31) / l.block[0] * l.block[0];
			l.grid[0] = total / l.block[0];
			if (nt > total) nt = total;
			std::vector<uint64_t> c;
			for (size_t k = 0; k < nt; k++)
				switch (pick("which", 5)) {
				case 0: c.push_back(total - 1 - pick("end", nt)); break;
				case 1: c.push_back(pick("begin", nt)); break;
				case 2: { uint64_t e = 1ull << pick("pow", 33); c.push_back(std::min(total - 1, e - std::min<uint64_t>(e, pick("around", 2)))); break; }
				case 3: c.push_back(std::min<uint64_t>(total - 1, l.block[0] * pick("blk", l.grid[0]) + (pick("edge", 2) ? l.block[0] - 1 : 0))); break;
				default: c.push_back(pick("any", total));
				}
			std::sort(c.begin(), c.end());
			c.erase(std::unique(c.begin(), c.end()), c.end());
			l.chunk = c;
			if (total > 1u << 22) { big++; probe("launch-beyond-4-GiB"); }
		} else {
			// every factorisation of the number of chunks into a grid of blocks
			std::vector<uint32_t> divs; for (uint32_t b = 1; b <= nt; b++) if (nt % b == 0) divs.push_back(b);
			l.block[0] = divs[pick("factor", divs.size())]; l.grid[0] = nt / l.block[0]; total = nt;
			for (size_t k = 0; k < nt; k++) l.chunk.push_back(k);
		}
		for (size_t k = 0; k < l.chunk.size(); k++) {
			bool last = l.chunk[k] == total - 1;
			make_chunk(l, CS);
			// the last chunk's memory may end with its data
			bool tight = last && pick("tight", 2);
			l.islot.push_back(tight ? std::max(l.stream[k].size(), l.plain[k].size() * 2 / 8 * 8) : CS * 2);
			l.oslot.push_back(tight ? l.plain[k].size() : CS);
			if (tight) probe("last-chunk-tight");
			if (l.stream[k].size() > CS * 2) violate("harness", "chunk needs %zu bytes", l.stream[k].size());
			l.dev_in.push_back(Bytes(l.islot[k])); l.dev_out.push_back(Bytes(l.oslot[k]));
			for (auto *v : {&l.dev_in[k], &l.dev_out[k]}) for (size_t j = 0; j < v->size(); j++) (*v)[j] = (uint8_t)data64(l.seed, j * 3 + k * 5000 + (v == &l.dev_out[k]));
			l.got.push_back(Bytes(l.oslot[k], 0x3c));
			l.own.emplace_back(l.oslot[k]);
			chunks++;
		}
		l.in = next + 8 * pick("inoff", 40); next = (l.in + total * CS * 2 + GUARD + 255) / 256 * 256;
		l.out = next + 8 * pick("outoff", 40); next = (l.out + total * CS + GUARD + 255) / 256 * 256;
		l.params = {l.in, l.out};
		l.mode = pick("mode", 4); l.quantum = 1u << pick("qbits", 12);
		if (l.mode == 1) l.quantum = 12;
		L.push_back(std::move(p));
	}
	sample("%d launches on %d streams, %zu chunks, first: grid %u x %u, %zu threads looked at, chunk of %zu bytes from %zu", nl, nstreams, chunks, L[0]->grid[0], L[0]->block[0], L[0]->chunk.size(), L[0]->plain[0].size(), L[0]->stream[0].size());
	for (auto &l : L) l->quantum = std::max<uint32_t>(l->quantum, chunks * 10); // (bounds the length of the trace)
	if (chunks > 1) nontrivial();
	if (big) nontrivial();
	uint64_t rounds = 0, overlap = 0;
	for (;;) {
		std::vector<int> ready;
		for (int s = 0; s < nstreams; s++)
			for (int i = 0; i < nl; i++) if (stream_of[i] == s && L[i]->stage < 3) { ready.push_back(i); break; }
		if (ready.empty()) break;
		if (ready.size() > 1) overlap++;
		step_launch(*L[ready[pick("next", ready.size())]]);
		if (++rounds > 3000000) violate("no-progress", "launches not finished after %llu rounds", (unsigned long long)rounds);
	}
	if (overlap) probe("launches-overlapped");
	for (auto &p : L) {
		Launch &l = *p;
		for (size_t k = 0; k < l.chunk.size(); k++) {
			const Bytes &d = l.plain[k];
			if (memcmp(l.got[k].data(), d.data(), d.size())) {
				size_t j = 0; while (l.got[k][j] == d[j]) j++;
				violate("wrong-data", "launch %d (grid %u, block %u): chunk %llu of %zu bytes comes back wrong at byte %zu", l.id, l.grid[0], l.block[0], (unsigned long long)l.chunk[k], d.size(), j);
			}
			if (l.dev_in[k].size() && memcmp(l.dev_in[k].data(), l.stream[k].data(), l.stream[k].size())) violate("input-modified", "compressed data changed");
		}
	}
	event("steps", total_steps);
}

namespace sim {
const Scenario scenarios[] = {{"C21", c21, nullptr, nullptr}};
const int num_scenarios = 1;
}
