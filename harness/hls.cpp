// The HLS decompressor's front end: the real tokenizer process between simulated streams.
#include "../sim/sim.h"
#include "ref842.h"
#include <lib842/sw.h>
#include <pthread.h>
#include <stdio.h>
#include <deque>
#include <vector>
#define main hls_example_main
#include "842_decomp.cpp"
#undef main
using ref842::Bytes;

static uint64_t waits_in, waits_out;
void hls_wait_note(bool reading) { if (reading) waits_in++; else waits_out++; }
void hls_range_error(int hi, int lo, int w) { sim::violate("bad-selection", "bits %d..%d of a value of %d bits selected", hi, lo, w); }

struct Tok { uint64_t op; int n; uint64_t val; };
struct Item {
	Bytes beats;                 // 16 bytes each, as sent
	std::vector<Tok> want;       // tokens, END included
	bool exact;                  // all of them are prescribed (otherwise only the first ones)
	const char *what;
};
static std::vector<Item> items;
static size_t nbeats(const Item &i) { return i.beats.size() / 16; }

static int param_bits(uint64_t op)
{
	if (op < 26) { int n = 0; for (const char *t = ref842::TEMPLATES[op]; *t; t++) n += ref842::is_index(*t) ? ref842::index_bits(*t) : 8 * ref842::size_of(*t); return n; }
	return op == 0x1b ? 6 : op == 0x1c || op == 0x1e ? 0 : -1;
}
static void expect(Item &i)
{
	ref842::BitReader r{i.beats.data(), i.beats.size()};
	i.exact = true;
	for (;;) {
		uint64_t op, v = 0;
		if (!r.get(5, &op)) op = 0x1e; // ended early
		int n = param_bits(op);
		if (n < 0) { i.exact = false; return; } // not an operation: nothing is promised about what follows
		if (n && !r.get(n, &v)) { op = 0x1e; n = 0; v = 0; }
		i.want.push_back({op, n, v});
		if (op == 0x1e) return;
	}
}
static int stall_den;
static void maybe_stall(const char *s) { if (stall_den && sim::rare(s, 4, 1, stall_den)) { for (int k = 0; k < 12; k++) sim::yield_user(); } }

static input_stream *in;
static tokenized_stream *out;
static void *producer(void *)
{
	for (auto &it : items)
		for (size_t b = 0; b < nbeats(it); b++) {
			maybe_stall("prodstall");
			input_stream_element e;
			e.keep = 0xffff; e.strb = 0xffff;
			uint64_t lo, hi;
			memcpy(&lo, &it.beats[b * 16], 8); memcpy(&hi, &it.beats[b * 16 + 8], 8);
			ap_uint<64> l = lo, h = hi;
			e.data = (h, l);
			e.last = b + 1 == nbeats(it);
			in->write(e);
		}
	return nullptr;
}
static void *process(void *)
{
	for (size_t k = 0; k < items.size(); k++) {
		{ sim::Lib l; opcode_tokenizer(*in, *out); }
		// whatever is left of this chunk (only if it was damaged) is dropped
		size_t total = 0;
		for (size_t j = 0; j <= k; j++) total += nbeats(items[j]);
		size_t left = 0;
		while (in->taken < total) { in->read(); left++; }
		if (in->taken > total) sim::violate("read-too-far", "tokenizing %s took %zu element(s) of the next chunk", items[k].what, in->taken - total);
		if (left && items[k].exact && !strcmp(items[k].what, "a chunk")) sim::violate("input-left", "%zu stream element(s) of an intact chunk left for the next one", left);
	}
	return nullptr;
}

static void c23()
{
	using namespace sim;
	set_sched_params(100 + pick("memden", 2000), 1, 1 + pick("syncden", 4));
	stall_den = pick("stalls", 3) * 4;
	int n = 1 + pick("chunks", 4);
	const struct lib842_implementation *impls[] = {get_sw842_implementation(), get_optsw842_implementation()};
	for (int k = 0; k < n; k++) {
		Item it; Bytes data;
		int wr = pick("writer", 4);
		uint64_t r = data64(900 + k, 3);
		if (wr < 2) {
			data.resize(8 * (1 + pick("words", 200)));
			ref842::shape(mix64, r, pick("shape", ref842::NSHAPES), data.data(), data.size());
			it.beats.resize(data.size() * 2 + 64);
			size_t ol = it.beats.size();
			if (impls[wr]->compress(data.data(), data.size(), it.beats.data(), &ol)) violate("harness", "compress");
			it.beats.resize(ol);
		} else {
			uint64_t c = 0;
			ref842::write_random([&](uint64_t m) { return mix64(r + ++c) % m; }, pick("ops", 150), false, pick("flavour", 3), it.beats, data);
		}
		it.what = "a chunk";
		while (it.beats.size() % 16) it.beats.push_back(0);
		switch (rare("fault", 3, 1, 3)) {
		case 1: // the sender stops early
			if (it.beats.size() > 16) { fault("input-ends-early"); it.beats.resize(16 * (1 + pick("cut", it.beats.size() / 16 - 1))); it.what = "a truncated chunk"; nontrivial(); }
			break;
		case 2:
			fault("input-damaged"); it.what = "a damaged chunk"; nontrivial();
			for (int m = 1 + pick("flips", 3); m > 0; m--) { size_t b = pick("bit", it.beats.size() * 8); it.beats[b / 8] ^= 0x80 >> (b % 8); }
			break;
		}
		expect(it);
		items.push_back(it);
	}
	if (n > 1) nontrivial();
	in = new input_stream; out = new tokenized_stream;
	in->depth = 1 + pick("indepth", 4); out->depth = 1 + pick("outdepth", 8);
	sample("%d chunk(s), FIFO depths %zu/%zu", n, in->depth, out->depth);
	pthread_t p, t;
	pthread_create(&p, nullptr, producer, nullptr);
	pthread_create(&t, nullptr, process, nullptr);
	for (auto &it : items) {
		size_t k = 0, bits = 0;
		for (;;) {
			maybe_stall("consstall");
			tokenized_stream_element e = out->read();
			uint64_t op = ap_uint<OP_BITS>(e.data(TOKEN_WIDTH - 1, TOKEN_WIDTH - OP_BITS)).to_uint64();
			event("token", op, (bool)e.last);
			bits += 5;
			if (k < it.want.size()) {
				const Tok &w = it.want[k];
				uint64_t v = w.n ? ap_uint<64>(e.data(TOKEN_WIDTH - OP_BITS - 1, 0)).to_uint64() >> (64 - w.n) : 0;
				if (op != w.op || v != w.val) violate("wrong-token", "token %zu of %s: operation 0x%02llx, parameters %llx instead of 0x%02llx, %llx (%d bits)", k, it.what, (unsigned long long)op, (unsigned long long)v, (unsigned long long)w.op, (unsigned long long)w.val, w.n);
				uint64_t rest = ap_uint<64>(e.data(TOKEN_WIDTH - OP_BITS - 1, 0)).to_uint64();
				if (w.n < 64 && (rest << w.n)) violate("wrong-token", "token %zu of %s has more than its parameters", k, it.what);
				bool last = w.op == 0x1e;
				if ((bool)e.last != last) violate("wrong-end", "token %zu of %s (operation 0x%02llx) is %smarked as the last", k, it.what, (unsigned long long)op, last ? "not " : "");
				bits += w.n;
			} else if (it.exact) violate("wrong-end", "%s goes on after its last token", it.what);
			else if (bits > it.beats.size() * 8 + 5) violate("wrong-end", "%s has more tokens than bits", it.what);
			k++;
			state(mix64(op << 40 ^ (uint64_t)out->size() << 20 ^ (uint64_t)in->size() << 10 ^ (bool)e.last ^ (uint64_t)(it.what[2] << 1)));
			if (e.last) break;
		}
		if (it.exact && k != it.want.size()) violate("wrong-end", "%s: %zu tokens instead of %zu", it.what, k, it.want.size());
		probe(it.what);
	}
	pthread_join(p, nullptr); pthread_join(t, nullptr);
	if (out->size() || in->size()) violate("input-left", "%zu token(s), %zu element(s) left", out->size(), in->size());
	if (waits_in) probe("waited-for-input");
	if (waits_out) probe("waited-for-consumer");
}
namespace sim {
const Scenario scenarios[] = {{"C23", c23, "data-race", nullptr}};
const int num_scenarios = 1;
}
