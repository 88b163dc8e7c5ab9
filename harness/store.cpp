// Stored chunks under simulation: a writer (one of the real compressors, or an
// independent reference writer), a store that damages what it holds, and readers
// (the real decompressors) with destinations of any size. AddressSanitizer on.
#include "../sim/sim.h"
#include "ref842.h"
#include <lib842/sw.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <set>
#include <vector>

using namespace sim;
using ref842::Bytes;

static uint64_t hash_bytes(const uint8_t *p, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = mix64(h ^ p[i]); return h; }

// A buffer that ends exactly where it says and starts `off` bytes past an 8-byte boundary
struct Buf {
	uint8_t *base, *p; size_t n, off; uint8_t canary;
	Buf(size_t n_, size_t off_, uint8_t fill) : n(n_), off(off_), canary(0xc7)
	{
		base = (uint8_t *)malloc(n + off + (n + off == 0));
		memset(base, canary, n + off + (n + off == 0));
		p = base + off;
		memset(p, fill, n);
	}
	Buf(const uint8_t *d, size_t n_, size_t off_) : Buf(n_, off_, 0) { if (n) memcpy(p, d, n); }
	~Buf() { free(base); }
	Buf(const Buf &) = delete;
	void check(const char *what)
	{
		for (size_t i = 0; i < off; i++) if (base[i] != canary) violate("outside-write", "%s: byte %zu before the buffer changed", what, off - i);
		if (n + off == 0 && base[0] != canary) violate("outside-write", "%s: byte after an empty buffer changed", what);
	}
};

// address space without memory behind it until it is written to
struct VBuf {
	uint8_t *p; size_t n;
	VBuf(size_t n_) : n(n_) { p = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) violate("harness", "no address space"); }
	~VBuf() { munmap(p, n); }
	VBuf(const VBuf &) = delete;
};
struct Impl { const char *name; const lib842_implementation *im; };
static Impl impl(int k) { return k == 0 ? Impl{"sw842", get_sw842_implementation()} : Impl{"optsw842", get_optsw842_implementation()}; }
static size_t ample(size_t n) { return n * 2 + 64; }

static size_t pick_len(bool mult8)
{
	size_t n;
	switch (pick("lenkind", 6)) {
	case 0: n = pick("len", 9); break;
	case 1: n = pick("len", 65); break;
	case 2: n = pick("len", 600); break;
	case 3: n = pick("len", 2600); break;
	case 4: n = 8 * pick("len", 1100); break;
	default: n = chance("big", 1, 8) ? (chance("bigger", 1, 8) ? 65536 + pick("len", 1 << 20) : 65536) : 8 * (60 + pick("len", 10)) + pick("len2", 2) * 4096; break;
	}
	return mult8 ? n / 8 * 8 : n;
}
static void make_data(Bytes &d, bool mult8)
{
	d.resize(pick_len(mult8));
	int kind = pick("shape", ref842::NSHAPES);
	ref842::shape(mix64, data64(bits64("data"), 3), kind, d.data(), d.size());
}
static size_t pick_off(int dec) { (void)dec; return rare("align", 8, 1, 3); }

// ------------------------------------------------------------------ records
struct Record { Bytes stored, data; int writer; }; // writer 0 sw, 1 optsw, 2 reference
static const char *const writers[] = {"sw842", "optsw842", "reference"};
static void write_record(Record &r)
{
	r.writer = pick("writer", 3);
	if (r.writer == 2) {
		ref842::write_random([](uint64_t n) { return pick("op", n); }, pick("nops", chance("long", 1, 4) ? 400 : 40), chance("short", 1, 4), pick("flavour", 3), r.stored, r.data);
		probe("reference-writer");
		return;
	}
	make_data(r.data, r.writer == 1);
	r.stored.assign(ample(r.data.size()), 0);
	size_t ol = r.stored.size();
	Buf in(r.data.data(), r.data.size(), 0), out(ol, 0, 0x5a);
	int ret = impl(r.writer).im->compress(in.p, in.n, out.p, &ol);
	if (ret || ol > out.n) violate("write-failed", "%s compressing %zu bytes with room for %zu: %d, length %zu", writers[r.writer], r.data.size(), out.n, ret, ol);
	r.stored.assign(out.p, out.p + ol);
}

static Bytes spare; // what the medium held before (for torn writes)
static void damage(Bytes &b, const std::vector<Record> &all)
{
	static const char *const names[] = {"bit-flip", "byte-overwrite", "truncated", "torn-write", "spliced", "range-lost", "range-duplicated", "tail-flip", "zeroed-range", "arbitrary-bytes", "op-rewritten", "extended", "bit-burst"};
	int k = pick("damage", 13);
	size_t n = b.size();
	if (!n && k != 11 && k != 9) k = 11;
	fault(names[k]);
	switch (k) {
	case 0: { size_t i = pick("at", n * 8); b[i / 8] ^= 0x80 >> (i % 8); break; }
	case 1: { size_t i = pick("at", n), m = 1 + pick("count", 8); while (m-- && i < n) b[i++] = pick("byte", 256); break; }
	case 2: b.resize(pick("at", n)); break;
	case 3: { // a prefix of the new data, the rest still old
		size_t t = pick("at", n + 1);
		Bytes old = spare;
		old.resize(n, 0);
		for (size_t i = t; i < n; i++) b[i] = old[i];
		break;
	}
	case 4: { // continues with another record
		const Record &o = all[pick("other", all.size())];
		size_t t = pick("at", n), u = pick("at2", o.stored.size() + 1);
		b.resize(t); b.insert(b.end(), o.stored.begin() + u, o.stored.end());
		break;
	}
	case 5: { size_t t = pick("at", n), m = 1 + pick("count", 16); b.erase(b.begin() + t, b.begin() + (t + m > n ? n : t + m)); break; }
	case 6: { size_t t = pick("at", n), m = 1 + pick("count", 16); if (t + m > n) m = n - t; Bytes c(b.begin() + t, b.begin() + t + m); b.insert(b.begin() + t, c.begin(), c.end()); break; }
	case 7: { size_t w = n < 12 ? n : 12; size_t i = (n - w) * 8 + pick("at", w * 8); b[i / 8] ^= 0x80 >> (i % 8); break; }
	case 8: { size_t i = pick("at", n), m = 1 + pick("count", 16); while (m-- && i < n) b[i++] = 0; break; }
	case 9: { size_t m = pick("count", 200); b.resize(m); uint64_t s = bits64("junk"); for (size_t i = 0; i < m; i++) b[i] = mix64(s + i); break; }
	case 10: { // turn the template at some 5-bit position into a chosen one
		size_t i = chance("start", 1, 3) ? 0 : pick("at", n * 8), op = pick("op5", 32);
		for (int k2 = 0; k2 < 5; k2++, i++) if (i / 8 < n) { b[i / 8] &= ~(0x80 >> (i % 8)); if (op >> (4 - k2) & 1) b[i / 8] |= 0x80 >> (i % 8); }
		break;
	}
	case 11: { size_t m = 1 + pick("count", 24); uint64_t s = bits64("junk"); for (size_t i = 0; i < m; i++) b.push_back(mix64(s + i)); break; }
	default: { size_t i = pick("at", n * 8), m = 2 + pick("count", 31); uint64_t s = bits64("junk") | 1; for (size_t j = 0; j < m && i < n * 8; j++, i++) if (s >> j & 1) b[i / 8] ^= 0x80 >> (i % 8); break; }
	}
}

struct Dec { int ret; size_t olen; Bytes data; };
static Dec decode(int which, const Bytes &in, size_t cap, size_t ioff, size_t ooff, uint8_t fill)
{
	Buf i(in.data(), in.size(), ioff), o(cap, ooff, fill);
	uint64_t h = hash_bytes(i.p, i.n);
	Dec d;
	d.olen = cap;
	d.ret = impl(which).im->decompress(i.p, i.n, o.p, &d.olen);
	i.check("input"); o.check("output");
	if (hash_bytes(i.p, i.n) != h) violate("input-modified", "%s changed its input", impl(which).name);
	if (d.olen > cap) violate("length-beyond-capacity", "%s: returned %d with length %zu for capacity %zu", impl(which).name, d.ret, d.olen, cap);
	if (d.ret > 0) violate("bad-return-code", "%s returned %d", impl(which).name, d.ret);
	if (d.ret == 0) d.data.assign(o.p, o.p + d.olen);
	return d;
}
static size_t pick_cap(size_t orig)
{
	switch (pick("capkind", 7)) {
	case 0: return orig;
	case 1: return orig + pick("cap", 100);
	case 2: return orig - (orig ? 1 + pick("cap", orig < 24 ? orig : 24) : 0);
	case 3: return pick("cap", orig + 1);
	case 4: return pick("cap", 32);
	case 5: return 4096 + orig;
	default: return 65536;
	}
}

static std::vector<Record> recs;
static void make_records()
{
	size_t n = 1 + pick("nrec", 3);
	recs.resize(n);
	for (auto &r : recs) write_record(r);
	spare.clear();
	if (chance("oldrec", 1, 2)) { Record o; write_record(o); spare = o.stored; }
	for (auto &r : recs) sample("%s %zu->%zu", writers[r.writer], r.data.size(), r.stored.size());
}

// C10: whatever is stored, reading it is harmless
static void c10()
{
	make_records();
	size_t rounds = 1 + pick("rounds", 50);
	sample("rounds %zu", rounds);
	for (size_t k = 0; k < rounds; k++) {
		Record &r = recs[pick("rec", recs.size())];
		Bytes b = r.stored;
		size_t nd = pick("ndamage", 4);
		for (size_t i = 0; i < nd; i++) damage(b, recs);
		if (chance("round8", 2, 3)) b.resize((b.size() + 7) / 8 * 8);
		int which = pick("decoder", 2);
		size_t cap = pick_cap(r.data.size()), io = pick_off(which), oo = pick_off(which);
		Dec a = decode(which, b, cap, io, oo, 0x00);
		Dec c = decode(which, b, cap, io, oo, 0xa5);
		if (a.ret != c.ret || a.olen != c.olen || a.data != c.data)
			violate("depends-on-surroundings", "%s decoding %zu bytes into %zu: %d/%zu the first time, %d/%zu with other memory contents", impl(which).name, b.size(), cap, a.ret, a.olen, c.ret, c.olen);
		event("dec", a.ret, a.olen);
		state(mix64((uint64_t)(a.ret + 1000) ^ which << 20 ^ (uint64_t)nd << 24 ^ (uint64_t)(cap < r.data.size()) << 30 ^ (uint64_t)(a.olen == r.data.size()) << 31 ^ (uint64_t)r.writer << 32 ^ (uint64_t)(io != 0) << 40 ^ (uint64_t)(oo != 0) << 41));
		if (nd) nontrivial();
		if (a.ret == 0) probe(nd ? "damaged-accepted" : "intact-accepted"); else probe("rejected");
	}
}

// C11: what is accepted is what was written
static void c11()
{
	make_records();
	size_t rounds = 1 + pick("rounds", 250);
	sample("rounds %zu", rounds);
	for (size_t k = 0; k < rounds; k++) {
		size_t ri = pick("rec", recs.size());
		Record &r = recs[ri];
		if (r.data.size() > 3000 && k > 20) continue;
		int which = pick("decoder", 2);
		Bytes b = r.stored;
		size_t nd = 1 + rare("ndamage", 3, 1, 3);
		if (k < 2) nd = 0;
		for (size_t i = 0; i < nd; i++) damage(b, recs);
		bool touched = b != r.stored;
		Dec a = decode(which, b, r.data.size() + 512 * chance("roomy", 1, 2), 0, 0, 0x11);
		event("dec", a.ret, a.olen);
		if (!touched) {
			bool shortdata = r.data.size() % 8 != 0; // optsw842 does not know the short data template
			if (a.ret && !(which == 1 && shortdata)) violate("intact-rejected", "%s rejects (%d) an intact chunk written by %s", impl(which).name, a.ret, writers[r.writer]);
			if (!a.ret && a.data != r.data) violate("intact-misread", "%s misreads an intact chunk written by %s", impl(which).name, writers[r.writer]);
			probe("intact-read");
			continue;
		}
		nontrivial();
		state(mix64((uint64_t)(a.ret + 1000) ^ which << 20 ^ (uint64_t)r.writer << 32 ^ (uint64_t)(a.ret == 0 && a.data == r.data) << 34));
		if (a.ret) { probe("damaged-rejected"); continue; }
		if (a.data == r.data) {
			Bytes ref;
			if (ref842::decode(b.data(), b.size(), r.data.size() + 70000, ref) || ref != a.data) violate("damage-not-reported", "%s accepts a damaged chunk of %s whose checksum or content is not valid", impl(which).name, writers[r.writer]);
			probe("damage-without-effect");
			continue;
		}
		// Other data than was written: only if the damaged chunk is, by itself, a valid chunk with that
		// content and checksum (a collision, or another chunk in its place)
		Bytes ref;
		int rr = ref842::decode(b.data(), b.size(), r.data.size() + 70000, ref);
		if (rr || ref != a.data)
			violate("silent-corruption", "%s accepts a damaged chunk of %s (%zu bytes decoded, %zu original) and returns other data; checksum or content do not match", impl(which).name, writers[r.writer], a.data.size(), r.data.size());
		probe("checksum-collision");
	}
}

// C12: full destinations
static void check_compress(int which, const Bytes &data, const Bytes &full, size_t cap, size_t io, size_t oo)
{
	Buf in(data.data(), data.size(), io), out(cap, oo, 0x3c);
	uint64_t h = hash_bytes(in.p, in.n);
	size_t ol = cap;
	int r = impl(which).im->compress(in.p, in.n, out.p, &ol);
	in.check("input"); out.check("output");
	if (hash_bytes(in.p, in.n) != h) violate("input-modified", "compressor changed its input");
	event("comp", r, ol);
	state(mix64((uint64_t)(r + 1000) ^ which << 20 ^ (uint64_t)(cap < full.size() ? full.size() - cap : 0) << 24 ^ (uint64_t)(full.size() % 64) << 44 ^ (uint64_t)io << 50 ^ (uint64_t)oo << 54));
	if (ol > cap) violate("length-beyond-capacity", "%s compress: returned %d, length %zu, capacity %zu", impl(which).name, r, ol, cap);
	if (cap < full.size()) {
		fault("destination-full");
		nontrivial();
		if (r >= 0) violate("full-not-reported", "%s compress of %zu bytes needing %zu: returned %d with capacity %zu (length %zu)", impl(which).name, data.size(), full.size(), r, cap, ol);
		if (ol != 0) violate("length-on-error", "%s compress failed with %d but left length %zu", impl(which).name, r, ol);
	} else {
		if (r) violate("spurious-failure", "%s compress of %zu bytes needing %zu: returned %d with capacity %zu", impl(which).name, data.size(), full.size(), r, cap);
		if (ol != full.size() || memcmp(out.p, full.data(), ol)) violate("capacity-changes-output", "%s compress of %zu bytes: %zu bytes with capacity %zu, %zu with ample", impl(which).name, data.size(), ol, cap, full.size());
		for (size_t i = ol; i < cap; i++) if (out.p[i] != 0x3c) { probe("writes-between-length-and-capacity"); break; }
	}
}
static void check_decompress(int which, const Bytes &stored, const Bytes &data, size_t cap, size_t io, size_t oo)
{
	Dec d = decode(which, stored, cap, io, oo, 0x3c);
	event("dec", d.ret, d.olen);
	state(mix64((uint64_t)(d.ret + 1000) ^ (uint64_t)(which + 2) << 20 ^ (uint64_t)(cap < data.size() ? data.size() - cap : 0) << 24 ^ (uint64_t)(data.size() % 64) << 44 ^ (uint64_t)io << 50 ^ (uint64_t)oo << 54));
	if (cap < data.size()) {
		fault("destination-full");
		nontrivial();
		if (d.ret >= 0) violate("full-not-reported", "%s decompress of a chunk of %zu bytes: returned %d with capacity %zu (length %zu)", impl(which).name, data.size(), d.ret, cap, d.olen);
		if (d.olen != 0) violate("length-on-error", "%s decompress failed with %d but left length %zu", impl(which).name, d.ret, d.olen);
	} else {
		if (d.ret) violate("spurious-failure", "%s decompress of a chunk of %zu bytes: returned %d with capacity %zu", impl(which).name, data.size(), d.ret, cap);
		if (d.data != data) violate("misread", "%s decompress of %zu bytes: %zu bytes, different data", impl(which).name, data.size(), d.olen);
	}
}
static size_t edge_cap(size_t need)
{
	switch (pick("capkind", 5)) {
	case 0: return need - (need ? 1 + pick("cap", need < 20 ? need : 20) : 0);
	case 1: return need + pick("cap", 20);
	case 2: return pick("cap", need + 1);
	case 3: return pick("cap", 24);
	default: return need - (need >= 8 ? 8 : 0);
	}
}
// more room than 32 bits can count
static void c12_huge()
{
	size_t cap = ((size_t)1 << 32) << pick("more", 2);
	probe("huge-capacity");
	nontrivial();
	if (chance("dec", 1, 2)) {
		Record r;
		write_record(r);
		int which = pick("decoder", 2);
		if (which == 1 && r.data.size() % 8) which = 0;
		cap += pick("over", r.data.size() + 2);
		// what follows a chunk is not looked at, however much it is
		size_t il = r.stored.size();
		if (pick("hugelen", 2) && decode(which, [&] { Bytes b(r.stored); b.resize(il + 16); return b; }(), r.data.size(), 0, 0, 0x3c).ret == 0) { il = ((size_t)1 << 32) + pick("over", il + 1); probe("huge-length"); }
		VBuf in(((size_t)1 << 32) + 200000), out(cap + 4096);
		if (r.stored.size()) memcpy(in.p, r.stored.data(), r.stored.size());
		size_t ol = cap;
		int ret = impl(which).im->decompress(in.p, il, out.p, &ol);
		event("dec", ret, ol);
		if (ret) violate("spurious-failure", "%s decompress of a chunk of %zu bytes (input length %zu): returned %d with capacity %zu", impl(which).name, r.data.size(), il, ret, cap);
		if (ol != r.data.size() || memcmp(out.p, r.data.data(), ol)) violate("misread", "%s decompress of %zu bytes with capacity %zu: %zu bytes, or different data", impl(which).name, r.data.size(), cap, ol);
	} else {
		int which = pick("compressor", 2);
		Bytes data;
		make_data(data, which == 1);
		Buf in(data.data(), data.size(), 0), out(ample(data.size()), 0, 0);
		size_t l1 = out.n;
		int r1 = impl(which).im->compress(in.p, in.n, out.p, &l1);
		cap += pick("over", l1 + 2);
		VBuf o2(cap + 4096);
		size_t ol = cap;
		int r = impl(which).im->compress(in.p, in.n, o2.p, &ol);
		event("comp", r, ol);
		if (r || r1) violate("spurious-failure", "%s compress of %zu bytes needing %zu: returned %d with capacity %zu", impl(which).name, data.size(), l1, r, cap);
		if (ol != l1 || memcmp(o2.p, out.p, ol)) violate("capacity-changes-output", "%s compress of %zu bytes: %zu bytes with capacity %zu, %zu with ample", impl(which).name, data.size(), ol, cap, l1);
	}
}
// a chunk of more than 4 GiB: zeros in front of a few words that are not. The destination of the zeros is the same
// 64 MiB of memory over and over.
struct Gigantic {
	static const size_t W = (size_t)64 << 20;
	uint8_t *p; size_t n;
	Gigantic(size_t zeros, size_t tail)
	{
		n = zeros / W * W + W + tail + 4096;
		n = (n + 4095) / 4096 * 4096;
		int fd = memfd_create("zeros", 0);
		p = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (fd < 0 || ftruncate(fd, W) || p == MAP_FAILED) violate("harness", "no memory for a gigantic chunk");
		for (size_t o = 0; o + W <= zeros; o += W)
			if (mmap(p + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) violate("harness", "no memory for a gigantic chunk");
		close(fd);
	}
	~Gigantic() { munmap(p, n); }
	Gigantic(const Gigantic &) = delete;
};
static void c12_gigantic()
{
	probe("gigantic-chunk");
	nontrivial();
	Bytes tail(8 * (1 + pick("tail", 6)));
	uint64_t ds = bits64("data");
	for (size_t i = 0; i < tail.size(); i++) tail[i] = (uint8_t)data64(ds, i);
	tail[0] |= 1;
	size_t words = ((size_t)1 << 29) + pick("words", 600), total = words * 8 + tail.size();
	Bytes stored;
	int writer = pick("writer", 2);
	if (writer == 0) { // the reference writer's
		ref842::BitWriter w;
		w.put(0x1c, 5);
		size_t left = words - 1;
		while (left) { size_t m = left < 64 ? left : 64; w.put(0x1b, 5); w.put(m - 1, 6); left -= m; }
		for (size_t i = 0; i < tail.size(); i += 8) { w.put(0, 5); for (int j = 0; j < 8; j++) w.put(tail[i + j], 8); }
		w.put(0x1e, 5);
		w.put(ref842::crc(tail.data(), tail.size()), 32); // (the zeros do not change a checksum of zero)
		w.pad8();
		stored = w.b;
	} else { // optsw842's (sw842 would take minutes)
		VBuf in(total + 4096);
		memcpy(in.p + words * 8, tail.data(), tail.size());
		stored.resize((size_t)16 << 20);
		size_t ol = stored.size();
		int r = impl(1).im->compress(in.p, total, stored.data(), &ol);
		event("comp", r, ol);
		if (r) violate("spurious-failure", "optsw842 compress of %zu bytes: returned %d with room for %zu", total, r, stored.size());
		stored.resize(ol);
	}
	int which = pick("decoder", 2);
	size_t cap = total;
	switch (pick("cap", 3)) {
	case 1: cap += 1 + pick("over", 4096); break;
	case 2: cap -= 1 + pick("under", 16); break;
	}
	sample("%zu bytes, stored in %zu by %s, room %zu, %s", total, stored.size(), writer ? "optsw842" : "reference", cap, impl(which).name);
	Gigantic out(words * 8, tail.size() + 4096);
	size_t ol = cap;
	int ret = impl(which).im->decompress(stored.data(), stored.size(), out.p, &ol);
	event("dec", ret, ol);
	if (cap < total) {
		fault("destination-full");
		if (ret >= 0) violate("full-not-reported", "%s decompress of a chunk of %zu bytes: returned %d with capacity %zu (length %zu)", impl(which).name, total, ret, cap, ol);
		return;
	}
	if (ret) violate("spurious-failure", "%s decompress of a chunk of %zu bytes: returned %d with capacity %zu", impl(which).name, total, ret, cap);
	if (ol != total || memcmp(out.p + words * 8, tail.data(), tail.size())) violate("misread", "%s decompress of %zu bytes with capacity %zu: %zu bytes, or different data", impl(which).name, total, cap, ol);
	for (size_t i = 0; i < Gigantic::W; i++) if (out.p[i]) violate("misread", "%s decompress of %zu bytes: zeros come back as something else", impl(which).name, total);
}
static void c12()
{
	if (rare("gigantic", 2, 1, 3500)) { c12_gigantic(); return; }
	if (rare("hugeroom", 2, 1, 30)) { c12_huge(); return; }
	if (chance("dec", 1, 2)) {
		Record r;
		write_record(r);
		size_t rounds = 1 + pick("rounds", 40);
		sample("decompress %s %zu->%zu rounds %zu", writers[r.writer], r.data.size(), r.stored.size(), rounds);
		for (size_t k = 0; k < rounds; k++) {
			int which = pick("decoder", 2);
			if (which == 1 && r.data.size() % 8) which = 0;
			check_decompress(which, r.stored, r.data, edge_cap(r.data.size()), pick_off(which), pick_off(which));
		}
	} else {
		int which = pick("compressor", 2);
		Bytes data;
		make_data(data, which == 1);
		Buf in(data.data(), data.size(), 0), out(ample(data.size()), 0, 0);
		size_t ol = out.n;
		int r = impl(which).im->compress(in.p, in.n, out.p, &ol);
		if (r) violate("spurious-failure", "%s compress of %zu bytes with capacity %zu: %d", impl(which).name, data.size(), out.n, r);
		Bytes full(out.p, out.p + ol), back;
		if (ref842::decode(full.data(), full.size(), data.size(), back) || back != data) violate("misread", "reference reader cannot read what %s wrote", impl(which).name);
		size_t rounds = 1 + pick("rounds", 40);
		sample("compress %s %zu->%zu rounds %zu", impl(which).name, data.size(), ol, rounds);
		for (size_t k = 0; k < rounds; k++) {
			size_t io = pick_off(which), oo = pick_off(which);
			if (which == 1 && (io || oo)) { // falls back to the other implementation, whose output may differ
				Buf i2(data.data(), data.size(), io), o2(ample(data.size()), oo, 0);
				size_t l2 = o2.n;
				if (impl(1).im->compress(i2.p, i2.n, o2.p, &l2)) violate("spurious-failure", "unaligned compress fails");
				Bytes f2(o2.p, o2.p + l2);
				check_compress(which, data, f2, edge_cap(l2), io, oo);
			} else check_compress(which, data, full, edge_cap(ol), io, oo);
		}
	}
}

// C13: memory runs out inside a codec call
static void c13()
{
	size_t rounds = 1 + pick("rounds", 12);
	sample("codec allocation faults, rounds %zu", rounds);
	for (size_t k = 0; k < rounds; k++) {
		int which = pick("compressor", 2);
		Bytes data;
		make_data(data, which == 1);
		if (data.size() > 9000) data.resize(8192);
		Buf in(data.data(), data.size(), pick_off(which)), out(ample(data.size()), pick_off(which), 0x44);
		size_t ol = out.n;
		lib_live_reset();
		uint64_t a0 = lib_alloc_count();
		int r;
		{ Lib l; r = impl(which).im->compress(in.p, in.n, out.p, &ol); }
		uint64_t need = lib_alloc_count() - a0;
		if (r) violate("spurious-failure", "%s compress fails with %d without any fault", impl(which).name, r);
		if (lib_live_count()) violate("leak", "%s compress leaves %llu allocation(s): %s", impl(which).name, (unsigned long long)lib_live_count(), lib_live_describe().c_str());
		Bytes full(out.p, out.p + ol);
		size_t tries = 1 + pick("tries", 6);
		for (size_t t = 0; t < tries && need; t++) {
			uint64_t f0 = alloc_failures();
			uint64_t mode = pick("allocmode", 4);
			if (mode == 0) { alloc_num = 1; alloc_den = 1 + pick("allocden", 50); }
			else if (mode == 1) alloc_fail_nth = lib_alloc_count() + 1 + pick("allocnth", need < 6 ? need : 6);
			else alloc_fail_nth = lib_alloc_count() + 1 + pick("allocnth", need);
			ol = out.n;
			memset(out.p, 0x44, out.n);
			{ Lib l; r = impl(which).im->compress(in.p, in.n, out.p, &ol); }
			alloc_num = 0; alloc_fail_nth = 0;
			bool failed = alloc_failures() != f0;
			in.check("input"); out.check("output");
			event("comp", r, ol, failed);
			if (lib_live_count()) violate("leak", "%s compress out of memory leaves %llu allocation(s): %s", impl(which).name, (unsigned long long)lib_live_count(), lib_live_describe().c_str());
			state(mix64((uint64_t)(r + 1000) ^ (uint64_t)which << 20 ^ (uint64_t)failed << 21 ^ mode << 22));
			if (failed) {
				nontrivial();
				probe(which ? "optsw842-out-of-memory" : "sw842-out-of-memory");
				if (r > 0) violate("bad-return-code", "%s compress out of memory returned %d", impl(which).name, r);
				if (r == 0) {
					// coping without the memory is fine as long as the result is right
					Bytes back;
					if (ref842::decode(out.p, ol, data.size(), back) || back != data) violate("failure-not-reported", "%s compress reported success out of memory, and its output is wrong", impl(which).name);
					probe("coped-without-memory");
				} else if (ol != 0) violate("length-on-error", "%s compress out of memory returned %d but length %zu", impl(which).name, r, ol);
			} else if (r) violate("spurious-failure", "%s compress fails with %d although no allocation failed", impl(which).name, r);
			ol = out.n;
			{ Lib l; r = impl(which).im->compress(in.p, in.n, out.p, &ol); }
			if (r || ol != full.size() || memcmp(out.p, full.data(), ol)) violate("retry-failed", "%s compress with memory available again: %d, %zu bytes instead of %zu", impl(which).name, r, ol, full.size());
		}
		// decompression may not depend on memory at all, or must report it
		int dw = pick("decoder", 2);
		if (dw == 1 && data.size() % 8) dw = 0;
		alloc_num = 1; alloc_den = 1;
		uint64_t f0 = alloc_failures();
		Buf o2(data.size(), pick_off(dw), 0), i2(full.data(), full.size(), pick_off(dw));
		size_t dl = o2.n;
		{ Lib l; r = impl(dw).im->decompress(i2.p, i2.n, o2.p, &dl); }
		alloc_num = 0;
		if (lib_live_count()) violate("leak", "%s decompress leaves allocations", impl(dw).name);
		if (r > 0 || (r == 0 && (dl != data.size() || memcmp(o2.p, data.data(), dl)))) violate("failure-not-reported", "%s decompress out of memory: %d", impl(dw).name, r);
		if (r && alloc_failures() == f0) violate("spurious-failure", "%s decompress fails with %d", impl(dw).name, r);
	}
}

// C14: a batch is the sequence of its chunks
static void c14()
{
	bool comp = chance("comp", 1, 2);
	int which = pick("impl", 2);
	const lib842_implementation *im = impl(which).im;
	bool huge = rare("huge", 2, 1, 24);                  // offsets beyond 4 GiB
	bool lng = !huge && rare("longbatch", 2, 1, 40);     // more chunks than fit a byte or 16 bits, all but a few of them skipped
	size_t n = huge ? 2 + pick("chunks", 3) : lng ? (pick("longkind", 2) ? 65530 : 250) + pick("longn", 600) : pick("chunks", 14);
	std::set<size_t> live;
	if (lng) {
		live.insert(n - 1);
		for (size_t k = 1 + pick("nlive", 6); k--;) live.insert(pick("livekind", 2) ? pick("live", n) : n - 1 - pick("livelast", 250));
		probe("long-batch");
	}
	std::vector<Record> rs(n);
	std::vector<Bytes> ins(n);
	std::vector<size_t> ilens(n), caps(n);
	std::vector<bool> skip(n), intact(n, true);
	size_t maxin = 0, maxcap = 0;
	bool mix = chance("mixed", 1, 2);
	for (size_t i = 0; i < n; i++) {
		if (lng && !live.count(i)) { skip[i] = true; ilens[i] = SIZE_MAX; continue; }
		skip[i] = rare("skip", 2, 1, 4);
		if (comp) {
			make_data(ins[i], which == 1 && !rare("odd", 2, 1, 12));
			if (lng && ins[i].size() > 96) ins[i].resize(96);
			if (ins[i].size() > 9000) ins[i].resize(8192);
			caps[i] = mix && chance("tight", 1, 3) ? pick("cap", ins[i].size() + 1) : ample(ins[i].size());
			if (caps[i] < ins[i].size()) fault("destination-full");
		} else {
			write_record(rs[i]);
			if (lng && rs[i].stored.size() + rs[i].data.size() > 256) { // (the slots of the skipped ones are as large)
				rs[i].data.resize(8 * pick("longwords", 8)); rs[i].stored.assign(ample(rs[i].data.size()), 0);
				size_t ol = rs[i].stored.size();
				im->compress(rs[i].data.data(), rs[i].data.size(), rs[i].stored.data(), &ol);
				rs[i].stored.resize(ol);
			}
			ins[i] = rs[i].stored;
			if (mix && chance("bad", 1, 3)) { damage(ins[i], rs); }
			caps[i] = mix && chance("tight", 1, 4) ? pick("cap", rs[i].data.size() + 1) : rs[i].data.size() + pick("slack", 3) * 8;
			if (caps[i] < rs[i].data.size()) fault("destination-full");
			intact[i] = ins[i] == rs[i].stored;
		}
		if (ins[i].size() > maxin) maxin = ins[i].size();
		if (caps[i] > maxcap) maxcap = caps[i];
		ilens[i] = skip[i] ? SIZE_MAX : ins[i].size();
		if (skip[i]) probe("skipped-chunk");
	}
	size_t is = maxin + pick("igap", 3) * 8, os = maxcap + pick("ogap", 3) * 8;
	if (chance("al8", 2, 3)) { is = (is + 7) / 8 * 8; os = (os + 7) / 8 * 8; }
	if (huge) { is = ((size_t)1 << 31) + 64 + 8 * pick("igap", 3) + (pick("stride", 2) << 31); os = ((size_t)1 << 31) + 64 + (pick("stride", 2) << 31); }
	std::vector<size_t> room(caps); // what of the capacity is looked at
	if (huge)
		for (size_t i = 0; i < n; i++) { // lengths beyond 4 GiB, too: room nobody needs, and what follows the chunk
			if (skip[i] || !intact[i] || caps[i] < rs[i].data.size()) continue;
			if (os >> 32 && pick("hugecap", 2)) { if (comp && caps[i] < ample(ins[i].size())) continue; caps[i] = ((size_t)1 << 32) + pick("over", 32); probe("huge-capacity"); }
			if (!comp && is >> 32 && pick("hugelen", 2)) { ilens[i] = ((size_t)1 << 32) + pick("over", 32); probe("huge-length"); }
		}
	sample("%s %s batch of %zu, strides %zu/%zu", impl(which).name, comp ? "compress" : "decompress", n, is, os);
	uint8_t *in, *out; Buf *bi = nullptr, *bo = nullptr;
	size_t itot = n ? (n - 1) * is + (huge ? is : maxin) : 0, otot = n ? (n - 1) * os + (huge ? os : maxcap) : 0;
	if (huge) {
		in = (uint8_t *)mmap(nullptr, itot + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		out = (uint8_t *)mmap(nullptr, otot + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (in == MAP_FAILED || out == MAP_FAILED) { probe("huge-batch-unavailable"); return; }
		probe("huge-batch");
	} else {
		bi = new Buf(itot, 0, 0x99); bo = new Buf(otot, 0, 0x77);
		in = bi->p; out = bo->p;
	}
	for (size_t i = 0; i < n; i++) {
		if (ins[i].size()) memcpy(in + i * is, ins[i].data(), ins[i].size());
		memset(out + i * os, 0x77, room[i]);
	}
	// what single calls give
	struct Single { int ret; size_t len; Bytes buf; };
	std::vector<Single> want(n);
	int first = 0;
	for (size_t i = 0; i < n; i++) {
		if (skip[i]) continue;
		if (huge) {
			VBuf si(((size_t)1 << 32) + 4096), so(((size_t)1 << 32) + 4096);
			uint8_t *ip = si.p + (uintptr_t)(in + i * is) % 8, *op = so.p + (uintptr_t)(out + i * os) % 8;
			if (ins[i].size()) memcpy(ip, ins[i].data(), ins[i].size());
			memset(op, 0x77, room[i]);
			want[i].len = caps[i];
			want[i].ret = comp ? im->compress(ip, ilens[i], op, &want[i].len) : im->decompress(ip, ilens[i], op, &want[i].len);
			want[i].buf.assign(op, op + room[i]);
			if (want[i].ret && want[i].ret != -ENOSPC) { if (!first) first = want[i].ret; probe("failing-chunk"); }
			if (!comp && intact[i] && !want[i].ret && (want[i].len != rs[i].data.size() || memcmp(op, rs[i].data.data(), want[i].len))) violate("misread", "%s: other data with lengths beyond 4 GiB", impl(which).name);
			continue;
		}
		// same alignment as in the batch
		Buf si(ins[i].data(), ins[i].size(), (uintptr_t)(in + i * is) % 8), so(caps[i], (uintptr_t)(out + i * os) % 8, 0x77);
		want[i].len = caps[i];
		want[i].ret = comp ? im->compress(si.p, si.n, so.p, &want[i].len) : im->decompress(si.p, si.n, so.p, &want[i].len);
		want[i].buf.assign(so.p, so.p + so.n);
		if (want[i].ret && want[i].ret != -ENOSPC) { if (!first) first = want[i].ret; probe("failing-chunk"); }
		if (want[i].ret == -ENOSPC) probe("chunk-without-space");
	}
	std::vector<int> rets(n, 4242);
	std::vector<size_t> olens(n), il2 = ilens;
	for (size_t i = 0; i < n; i++) olens[i] = skip[i] ? 0x1234567 : caps[i];
	int64_t oom = -1;
	if (comp && n && !lng && rare("oom", 2, 1, 5)) { // one chunk of the batch hits an allocation failure
		alloc_fail_nth = lib_alloc_count() + 1 + pick("allocnth", 2 * n);
		oom = 1;
	}
	uint64_t f0 = alloc_failures();
	int r;
	{ Lib l; r = comp ? im->compress_chunked(n, rets.data(), in, is, il2.data(), out, os, olens.data()) : im->decompress_chunked(n, rets.data(), in, is, il2.data(), out, os, olens.data()); }
	alloc_fail_nth = 0;
	bool failed = alloc_failures() != f0;
	if (lib_live_count()) violate("leak", "batch leaves allocations");
	event("batch", r, n);
	if (n > 1) nontrivial();
	if (bi) { bi->check("input"); bo->check("output"); }
	size_t nomem = 0; bool anyfail = false;
	for (size_t i = 0; i < n; i++) {
		uint8_t *o = out + i * os;
		if (il2[i] != ilens[i]) violate("batch-changes-lengths", "input length of chunk %zu changed", i);
		if (skip[i]) {
			if (rets[i] != 4242 || olens[i] != 0x1234567) violate("skipped-chunk-touched", "results of skipped chunk %zu changed", i);
			for (size_t j = 0; j < room[i]; j++) if (o[j] != 0x77) violate("skipped-chunk-touched", "output of skipped chunk %zu changed", i);
			continue;
		}
		if (ins[i].size() && memcmp(in + i * is, ins[i].data(), ins[i].size())) violate("input-modified", "input of chunk %zu changed", i);
		if (rets[i] && rets[i] != -ENOSPC) anyfail = true;
		if (failed && rets[i] < 0 && rets[i] != want[i].ret && nomem == 0) { nomem++; continue; } // the chunk hit by the allocation failure
		if (rets[i] != want[i].ret || olens[i] != want[i].len)
			violate("batch-differs", "chunk %zu of %zu (%s %s): batch %d/%zu, single call %d/%zu", i, n, impl(which).name, comp ? "compress" : "decompress", rets[i], olens[i], want[i].ret, want[i].len);
		if (rets[i] == 0 && olens[i] && memcmp(o, want[i].buf.data(), olens[i])) violate("batch-differs", "chunk %zu of %zu: other bytes than a single call", i, n);
	}
	(void)oom;
	// between the slots nothing may change
	if (!huge)
		for (size_t i = 0; i < n; i++) {
			size_t from = i * os + caps[i], to = i + 1 < n ? (i + 1) * os : otot;
			for (size_t j = from; j < to; j++) if (out[j] != 0x77) violate("outside-write", "byte %zu after the capacity of chunk %zu changed", j - from, i);
		}
	if (failed && nomem) { nontrivial(); probe("batch-out-of-memory"); }
	if ((r != 0) != anyfail) violate("batch-return-code", "batch returns %d although %s chunk failed (other than for lack of space)", r, anyfail ? "a" : "no");
	if (r > 0) violate("bad-return-code", "batch returns %d", r);
	state(mix64(n ^ (uint64_t)which << 8 ^ (uint64_t)comp << 9 ^ (uint64_t)(r + 1000) << 12 ^ (uint64_t)failed << 40 ^ (uint64_t)huge << 41));
	delete bi; delete bo;
	if (huge) { munmap(in, itot + 4096); munmap(out, otot + 4096); }
}

// C09, interop part: every reader reads every writer, through the store
static void c09()
{
	size_t rounds = 1 + pick("rounds", 6);
	for (size_t k = 0; k < rounds; k++) {
		Record r;
		write_record(r);
		sample("%s %zu->%zu", writers[r.writer], r.data.size(), r.stored.size());
		if (r.stored.size() % 8) violate("stored-size", "%s wrote %zu bytes, not a multiple of 8", writers[r.writer], r.stored.size());
		Bytes back;
		if (ref842::decode(r.stored.data(), r.stored.size(), r.data.size(), back) || back != r.data) violate("unreadable", "chunk of %s (%zu bytes) is not readable by the reference reader", writers[r.writer], r.data.size());
		for (int which = 0; which < 2; which++) {
			if (which == 1 && r.data.size() % 8) continue; // short data template: documented as not supported
			Dec d = decode(which, r.stored, r.data.size() + pick("slack", 20), pick_off(which), pick_off(which), 0x21);
			if (d.ret || d.data != r.data) violate("unreadable", "chunk of %s (%zu bytes) is not readable by %s: %d", writers[r.writer], r.data.size(), impl(which).name, d.ret);
			event("read", r.writer, which, d.olen);
			state(mix64(r.writer * 2 + which + (r.data.size() > 512) * 16 + (r.data.size() > 2048) * 32));
		}
		nontrivial();
	}
}

// C19: what a compressor puts out depends on its input alone
static __attribute__((noinline)) void scribble_stack()
{
	uint64_t r = bits64("stack");
	volatile uint64_t a[16384];
	for (size_t i = 0; i < 16384; i++) a[i] = r & 1 ? r >> 8 : mix64(r + i);
}
static void new_surroundings()
{
	static const int m[] = {0, 256, 257, 257, 1, 0xff, 0x7f};
	fresh_contents = m[pick("fresh", 7)];
	if (fresh_contents) fault(fresh_contents == 257 ? "recycled-memory" : "arbitrary-fresh-memory");
	if (chance("scribble", 1, 2)) { fault("arbitrary-stack"); scribble_stack(); }
}
static void c19()
{
	size_t ninputs = 1 + pick("inputs", 3);
	struct In { Bytes data; int which; Bytes out; };
	std::vector<In> ins(ninputs);
	for (auto &i : ins) {
		i.which = pick("compressor", 2);
		make_data(i.data, i.which == 1);
		if (&i != &ins[0] && chance("variant", 1, 2)) { // nearly the same as another one
			i.data = ins[0].data;
			if (i.which == 1) i.data.resize(i.data.size() / 8 * 8);
			for (size_t k = pick("changes", 4); k > 0 && !i.data.empty(); k--) i.data[pick("at", i.data.size())] ^= 1 << pick("bit", 8);
		}
		sample("%s %zu", impl(i.which).name, i.data.size());
	}
	size_t rounds = 2 + pick("rounds", 24);
	for (size_t k = 0; k < rounds; k++) {
		In &i = ins[pick("input", ninputs)];
		new_surroundings();
		size_t n = i.data.size();
		// something else happens first
		switch (pick("before", 7)) {
		case 1: { fault("failed-call-before"); size_t ol = pick("room", n + 1) / 2; Buf a(i.data.data(), n, 0), b(ol, 0, 1); Lib l; impl(pick("other", 2)).im->compress(a.p, a.n, b.p, &ol); break; }
		case 2: { fault("out-of-memory-before"); size_t ol = ample(n); Buf a(i.data.data(), n, 0), b(ol, 0, 2); alloc_fail_nth = lib_alloc_count() + 1 + pick("allocnth", 40); { Lib l; impl(pick("other", 2)).im->compress(a.p, a.n, b.p, &ol); } alloc_fail_nth = 0; break; }
		case 3: if (!i.out.empty()) { fault("damaged-chunk-before"); Bytes b = i.out; b[pick("at", b.size())] ^= 1 << pick("bit", 8); decode(pick("other", 2), b, n, 0, 0, 3); } break;
		case 4: { Record r; write_record(r); break; }
		default: break;
		}
		// aligned as required; everything else may vary
		size_t io = i.which ? 0 : rare("align", 8, 1, 3), oo = i.which ? 0 : rare("align", 8, 1, 3);
		size_t cap = i.out.empty() || chance("roomy", 1, 2) ? ample(n) : i.out.size() + pick("slack", 32);
		bool tight = !i.out.empty() && chance("tight", 1, 6);
		if (tight) { cap = i.out.size() - 1 - (chance("nearly", 2, 3) ? pick("lack", 16) : pick("lack", i.out.size())) % i.out.size(); fault("no-room"); }
		Bytes got;
		int ret;
		size_t ol = cap;
		if (chance("batch", 1, 4)) {
			size_t m = 1 + pick("members", 4), at = pick("member", m), is = (n + 7) / 8 * 8 + 8 * pick("gap", 3), os = (cap + 7) / 8 * 8;
			Buf in(is * m, io, (uint8_t)pick("fill", 256)), out(os * m, oo, (uint8_t)pick("fill", 256));
			std::vector<size_t> il(m), l(m, cap); std::vector<int> rets(m, 12345);
			for (size_t c = 0; c < m; c++) { In &o = c == at ? i : ins[pick("input", ninputs)]; size_t z = o.data.size() < is ? o.data.size() : is; if (i.which == 1) z = z / 8 * 8; memcpy(in.p + c * is, o.data.data(), z); il[c] = z; }
			{ Lib lg; impl(i.which).im->compress_chunked(m, rets.data(), in.p, is, il.data(), out.p, os, l.data()); }
			ret = rets[at]; ol = l[at];
			if (!ret && ol <= os) got.assign(out.p + at * os, out.p + at * os + ol);
			in.check("input"); out.check("output");
		} else {
			Buf in(i.data.data(), n, io), out(cap, oo, (uint8_t)pick("fill", 256));
			{ Lib l; ret = impl(i.which).im->compress(in.p, in.n, out.p, &ol); }
			if (!ret && ol <= cap) got.assign(out.p, out.p + ol);
			in.check("input"); out.check("output");
		}
		event("comp", ret, ol);
		if (tight) { if (!ret) violate("output-varies", "%s compresses the same %zu bytes to %zu bytes when there is room for %zu, otherwise to %zu", impl(i.which).name, n, ol, cap, i.out.size()); continue; }
		if (ret) violate("spurious-failure", "%s compress of %zu bytes with room for %zu: %d", impl(i.which).name, n, cap, ret);
		size_t bound = ((n / 8) * 69 + (n % 8 ? 8 + 8 * (n % 8) : 0) + 5 + 32 + 63) / 64 * 8;
		if (ol > bound) violate("longer-than-literal", "%s made %zu bytes of %zu, more than the %zu that storing every word literally takes", impl(i.which).name, ol, n, bound);
		if (i.out.empty()) { i.out = got; probe("first-time"); }
		else {
			nontrivial();
			if (got != i.out) violate("output-varies", "%s compressing the same %zu bytes again: %zu bytes instead of %zu, or different ones", impl(i.which).name, n, got.size(), i.out.size());
			probe("same-again");
		}
		state(mix64(i.which ^ (uint64_t)fresh_contents << 4 ^ (uint64_t)io << 16 ^ (uint64_t)oo << 20 ^ (uint64_t)(cap == ample(n)) << 30 ^ (ol * 8 / (n + 1)) << 32 ^ k << 50));
	}
}

namespace sim {
const Scenario scenarios[] = {
	{"C09", c09, nullptr, "unreadable,stored-size,asan,ubsan,crash,no-term,outside"},
	{"C10", c10, "write-failed,leak", nullptr},
	{"C11", c11, nullptr, "silent-corruption,damage-not,intact"},
	{"C12", c12, "leak", nullptr},
	{"C13", c13, nullptr, nullptr},
	{"C14", c14, "write-failed", nullptr},
	{"C19", c19, "leak", nullptr},
};
const int num_scenarios = sizeof(scenarios) / sizeof(scenarios[0]);
}
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=262144:malloc_fill_byte=93:handle_segv=1:detect_stack_use_after_return=0"; }
