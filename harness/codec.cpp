// Concurrent callers of the codecs: threads preempted at every memory access of
// the codecs; every call must give exactly what it gives alone.
#include "../sim/sim.h"
#include "ref842.h"
#include <lib842/sw.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <thread>
#include <vector>

using namespace sim;
using ref842::Bytes;

struct Call {
	int which, op;               // op: 0 compress, 1 decompress, 2 batch compress, 3 batch decompress, 4 getter only
	size_t io, oo, cap;
	Bytes in; size_t n, istride, ostride;
	std::vector<size_t> ilens, ocaps;
	// what it gave alone, and among the others
	int ret; size_t olen; Bytes out; std::vector<int> rets; std::vector<size_t> olens;
	int cret; size_t colen; Bytes cout; std::vector<int> crets; std::vector<size_t> colens;
};
// In half of the runs nothing of the library is used before the threads start,
// so that whatever it sets up on first use is set up concurrently.
static bool cold;
static const lib842_implementation *im(int w) { return w ? get_optsw842_implementation() : get_sw842_implementation(); }
static uint8_t *aligned(size_t n, size_t off, uint8_t **base) { *base = (uint8_t *)malloc(n + off + 16); memset(*base, 0xc7, n + off + 16); return *base + off; }

static void perform(const Call &c, int &ret, size_t &olen, Bytes &out, std::vector<int> &rets, std::vector<size_t> &olens)
{
	uint8_t *ib, *ob;
	size_t isz = c.in.size(), osz = c.op < 2 ? c.cap : c.n * c.ostride;
	uint8_t *i, *o;
	{
		NoFault nf;
		i = aligned(isz, c.io, &ib); o = aligned(osz, c.oo, &ob);
		if (isz) memcpy(i, c.in.data(), isz);
		memset(o, 0x4e, osz);
		rets.assign(c.n, 777); olens = c.ocaps;
	}
	olen = c.cap; ret = 0;
	{
		Lib l;
		const lib842_implementation *m = im(c.which);
		switch (c.op) {
		case 0: ret = m->compress(i, isz, o, &olen); break;
		case 1: ret = m->decompress(i, isz, o, &olen); break;
		case 2: ret = m->compress_chunked(c.n, rets.data(), i, c.istride, c.ilens.data(), o, c.ostride, olens.data()); break;
		case 3: ret = m->decompress_chunked(c.n, rets.data(), i, c.istride, c.ilens.data(), o, c.ostride, olens.data()); break;
		default:
			for (int k = 0; k < 2; k++) {
				const lib842_implementation *g = im(k);
				if (!g->compress || !g->decompress || !g->compress_chunked || !g->decompress_chunked || !g->required_alignment || !g->preferred_alignment) ret = -1;
			}
		}
	}
	NoFault nf;
	for (int k = 0; k < 16; k++) if (ob[c.oo + osz + k] != 0xc7) violate("outside-write", "call wrote after its output");
	for (size_t k = 0; k < c.oo; k++) if (ob[k] != 0xc7) violate("outside-write", "call wrote before its output");
	if (isz && memcmp(i, c.in.data(), isz)) violate("input-modified", "call changed its input");
	if (c.op < 2) out.assign(o, o + (ret == 0 && olen <= osz ? olen : 0)); // beyond the reported length anything goes
	else if (c.op < 4) {
		out.assign(osz, 0);
		for (size_t k = 0; k < c.n; k++) if (rets[k] == 0 && olens[k] <= c.ostride) memcpy(out.data() + k * c.ostride, o + k * c.ostride, olens[k]);
	}
	memset(o, 0, osz);
	free(ib); free(ob);
}

static void make_call(Call &c)
{
	c.which = pick("impl", 2);
	c.op = pick("op", 5);
	if (c.op == 4 && pick("op2", 2)) c.op = 0;
	c.io = rare("align", 8, 1, 5); c.oo = rare("align", 8, 1, 5);
	c.n = c.op == 2 || c.op == 3 ? 1 + pick("chunks", 4) : 1;
	std::vector<Bytes> ins(c.n);
	size_t mi = 8, mo = 8;
	for (size_t k = 0; k < c.n; k++) {
		size_t len = 8 * pick("len", chance("longer", 1, 4) ? 160 : 30) + (c.which == 0 && !rare("odd", 2, 3, 4) ? 0 : 0);
		if (c.which == 0 && rare("odd", 2, 1, 4)) len += pick("oddlen", 8);
		Bytes d(len);
		ref842::shape(mix64, data64(bits64("data"), 3), pick("shape", ref842::NSHAPES), d.data(), len);
		size_t cap = c.op == 0 || c.op == 2 ? len * 2 + 64 : len;
		if ((c.op == 1 || c.op == 3) && cold) {
			uint64_t r0 = bits64("written"), ctr = 0;
			Bytes s, plain;
			ref842::write_random([&](uint64_t m) { return data64(r0, ++ctr) % m; }, pick("ops", 24), c.which == 0 && pick("short", 4) == 0, (int)pick("flavour", 4), s, plain);
			cap = plain.size();
			if (rare("damage", 2, 1, 5) && s.size()) { s[pick("at", s.size())] ^= 1 << pick("bit", 8); fault("stored-chunk-damaged"); }
			d = s;
		} else if (c.op == 1 || c.op == 3) {
			Bytes s(len * 2 + 64);
			size_t ol = s.size();
			// written by either compressor
			int w = len % 8 ? 0 : pick("writer", 2);
			if (im(w)->compress(d.data(), len, s.data(), &ol)) violate("harness", "cannot prepare chunk");
			s.resize(ol);
			if (rare("damage", 2, 1, 5) && ol) { s[pick("at", ol)] ^= 1 << pick("bit", 8); fault("stored-chunk-damaged"); }
			d = s;
		}
		if (rare("tight", 2, 1, 6)) { cap = pick("cap", cap + 1); fault("destination-full"); }
		ins[k] = d;
		c.ilens.push_back(rare("skip", 2, 1, 8) && c.op >= 2 ? SIZE_MAX : d.size());
		c.ocaps.push_back(cap);
		if (d.size() > mi) mi = d.size();
		if (cap > mo) mo = cap;
	}
	c.cap = c.ocaps[0];
	c.istride = (mi + 7) / 8 * 8; c.ostride = (mo + 7) / 8 * 8 + 8;
	if (c.op == 2 || c.op == 3) {
		c.in.assign(c.n * c.istride, 0x31);
		for (size_t k = 0; k < c.n; k++) if (ins[k].size()) memcpy(c.in.data() + k * c.istride, ins[k].data(), ins[k].size());
	} else c.in = ins[0];
}

static void alone(Call &c)
{
	perform(c, c.ret, c.olen, c.out, c.rets, c.olens);
	// alone: the reader's view must be right already
	if (c.op == 0 && c.ret == 0) {
		Bytes b;
		if (ref842::decode(c.out.data(), c.out.size(), c.in.size(), b) || b != c.in) violate("wrong-alone", "even a single caller gets wrong data (%s)", c.which ? "optsw842" : "sw842");
	}
}
static void compare(const Call &c, size_t t, size_t k)
{
	const char *im = c.which ? "optsw842" : "sw842";
	if (c.cret != c.ret || c.colen != c.olen) violate("differs-from-solo", "thread %zu call %zu (%s op %d, %zu bytes): %d/%zu instead of %d/%zu alone", t, k, im, c.op, c.in.size(), c.cret, c.colen, c.ret, c.olen);
	if (c.crets != c.rets || c.colens != c.olens) violate("differs-from-solo", "thread %zu call %zu (%s batch %d): other per-chunk results than alone", t, k, im, c.op);
	if (c.cout != c.out) violate("differs-from-solo", "thread %zu call %zu (%s op %d, %zu bytes): other bytes than alone", t, k, im, c.op, c.in.size());
}

static void run(bool races)
{
	set_sched_params(20 + pick("memden", 400), 1, 1 + pick("syncden", 6));
	if (races) race_detection(true);
	cold = pick("cold", 2);
	if (cold) probe("library-first-used-concurrently");
	size_t nt = 2 + pick("nthreads", 4);
	std::vector<std::vector<Call>> calls(nt);
	size_t total = 0;
	for (auto &v : calls) {
		v.resize(1 + pick("ncalls", 4));
		for (auto &c : v) { make_call(c); if (!cold) alone(c); }
		total += v.size();
	}
	sample("%zu threads, %zu calls, first: %s op %d of %zu bytes", nt, total, calls[0][0].which ? "optsw842" : "sw842", calls[0][0].op, calls[0][0].in.size());
	lib_live_reset();
	std::vector<std::thread> th;
	int active = 0, overlap = 0;
	for (size_t t = 0; t < nt; t++)
		th.emplace_back([&, t] {
			for (size_t k = 0; k < calls[t].size(); k++) {
				Call &c = calls[t][k];
				if (active++) overlap++;
				state(mix64((uint64_t)active << 8 ^ (uint64_t)c.which << 4 ^ (uint64_t)c.op ^ (uint64_t)k << 16 ^ (uint64_t)t << 20));
				perform(c, c.cret, c.colen, c.cout, c.crets, c.colens);
				active--;
				event("done", t, k, (uint64_t)(c.cret + 1000) ^ c.colen << 20);
				if (!cold) compare(c, t, k);
			}
		});
	for (auto &t : th) t.join();
	if (overlap) { nontrivial(); probe("overlapping-calls"); }
	if (cold)
		for (size_t t = 0; t < nt; t++)
			for (size_t k = 0; k < calls[t].size(); k++) { alone(calls[t][k]); compare(calls[t][k], t, k); }
	if (lib_live_count()) violate("leak", "%llu allocation(s) left after all calls", (unsigned long long)lib_live_count());
}
static void c09() { run(false); }
static void c08() { run(true); }

namespace sim {
const Scenario scenarios[] = {
	{"C09", c09, "leak,data-race", nullptr},
	{"C08", c08, nullptr, "data-race"},
};
const int num_scenarios = sizeof(scenarios) / sizeof(scenarios[0]);
}
