// Independent reference for the 842 format: a plain decoder, and a writer that
// emits arbitrary valid streams (another producer of stored chunks, like the hardware).
#pragma once
#include <errno.h>
#include <stdint.h>
#include <string.h>
#include <functional>
#include <vector>

namespace ref842 {
typedef std::vector<uint8_t> Bytes;

// bitwise CRC-32, polynomial 0x04c11db7, most significant bit first, start value 0
inline uint32_t crc(const uint8_t *p, size_t n)
{
	static uint32_t tab[256];
	if (!tab[1])
		for (uint32_t i = 0; i < 256; i++) {
			uint32_t r = i << 24;
			for (int b = 0; b < 8; b++) r = (r << 1) ^ ((r >> 31) ? 0x04c11db7u : 0);
			tab[i] = r;
		}
	uint32_t c = 0;
	for (size_t i = 0; i < n; i++) c = (c << 8) ^ tab[(c >> 24) ^ p[i]];
	return c;
}

// what each template consists of: D2 D4 D8 I2 I4 I8 ('d','D','Q' / 'i','I','J')
static const char *const TEMPLATES[26] = {
	"Q", "Ddi", "Did", "Dii", "DI", "diD", "didi", "diid", "diii", "diI", "idD", "iDi", "idid",
	"idii", "idI", "iiD", "iidi", "iiid", "iiii", "iiI", "ID", "Idi", "Iid", "Iii", "II", "J"};

struct BitReader {
	const uint8_t *p; size_t n; size_t pos = 0; // pos in bits
	bool get(int k, uint64_t *v)
	{
		if (pos + k > n * 8) return false;
		uint64_t r = 0;
		for (int i = 0; i < k; i++, pos++) r = (r << 1) | ((p[pos / 8] >> (7 - pos % 8)) & 1);
		*v = r;
		return true;
	}
};
struct BitWriter {
	Bytes b; size_t pos = 0;
	void put(uint64_t v, int k)
	{
		for (int i = k - 1; i >= 0; i--, pos++) {
			if (pos % 8 == 0) b.push_back(0);
			if ((v >> i) & 1) b[pos / 8] |= 0x80 >> (pos % 8);
		}
	}
	void pad8() { while (b.size() % 8) b.push_back(0); pos = b.size() * 8; }
};
inline bool is_index(char c) { return c == 'i' || c == 'I' || c == 'J'; }
inline int size_of(char c) { return c == 'd' || c == 'i' ? 2 : c == 'D' || c == 'I' ? 4 : 8; }
inline int index_bits(char c) { return c == 'I' ? 9 : 8; }
inline uint64_t fifo(char c) { return c == 'i' ? 512 : 2048; }
inline uint64_t resolve(char c, uint64_t index, uint64_t total)
{
	uint64_t off = index * size_of(c), f = fifo(c);
	if (total > f) {
		uint64_t section = total / f * f, pos = total - section;
		if (off >= pos) section -= f;
		off += section;
	}
	return off;
}

// 0, or -EINVAL / -ENOSPC
inline int decode(const uint8_t *in, size_t n, size_t cap, Bytes &out)
{
	BitReader r{in, n};
	out.clear();
	uint64_t v;
	for (;;) {
		if (!r.get(5, &v)) return -EINVAL;
		if (v < 26) {
			size_t total = out.size() / 8 * 8;
			for (const char *t = TEMPLATES[v]; *t; t++) {
				int s = size_of(*t);
				if (is_index(*t)) {
					uint64_t ix;
					if (!r.get(index_bits(*t), &ix)) return -EINVAL;
					uint64_t off = resolve(*t, ix, total);
					if (off + s > total) return -EINVAL;
					if (out.size() + s > cap) return -ENOSPC;
					for (int i = 0; i < s; i++) out.push_back(out[off + i]);
				} else {
					if (out.size() + s > cap) return -ENOSPC;
					uint64_t d;
					if (!r.get(8 * s, &d)) return -EINVAL;
					for (int i = s - 1; i >= 0; i--) out.push_back((uint8_t)(d >> (8 * i)));
				}
			}
		} else if (v == 0x1b) {
			uint64_t rep;
			if (!r.get(6, &rep)) return -EINVAL;
			if (out.size() < 8) return -EINVAL;
			if (out.size() + (rep + 1) * 8 > cap) return -ENOSPC;
			for (uint64_t i = 0; i < (rep + 1) * 8; i++) out.push_back(out[out.size() - 8]);
		} else if (v == 0x1c) {
			if (out.size() + 8 > cap) return -ENOSPC;
			out.insert(out.end(), 8, 0);
		} else if (v == 0x1d) {
			uint64_t k, d;
			if (!r.get(3, &k) || !k) return -EINVAL;
			if (out.size() + k > cap) return -ENOSPC;
			while (k--) { if (!r.get(8, &d)) return -EINVAL; out.push_back((uint8_t)d); }
		} else if (v == 0x1e) break;
		else return -EINVAL;
	}
	if (!r.get(32, &v)) return -EINVAL;
	return v == crc(out.data(), out.size()) ? 0 : -EINVAL;
}

// A valid stream of about nops operations; rnd(n) draws from [0,n)
inline void write_random(const std::function<uint64_t(uint64_t)> &rnd, size_t nops, bool short_data, int flavour, Bytes &stream, Bytes &data)
{
	BitWriter w;
	data.clear();
	uint64_t favourite = rnd(26);
	for (size_t k = 0; k < nops; k++) {
		uint64_t op;
		uint64_t c = rnd(100);
		if (flavour == 1) op = c < 60 ? favourite : rnd(26);            // mostly one template
		else if (flavour == 2) op = c < 30 ? 0x1b : c < 50 ? 0x1c : rnd(26);
		else op = c < 5 ? 0x1b : c < 10 ? 0x1c : rnd(26);
		if (op == 0x1b && data.size() < 8) op = 0x1c;
		size_t total = data.size();
		if (op < 26 && total < 8 && strpbrk(TEMPLATES[op], "iIJ")) op = 0;
		w.put(op, 5);
		if (op == 0x1b) {
			uint64_t rep = rnd(flavour == 2 ? 64 : 6);
			w.put(rep, 6);
			for (uint64_t i = 0; i < (rep + 1) * 8; i++) data.push_back(data[data.size() - 8]);
		} else if (op == 0x1c) data.insert(data.end(), 8, 0);
		else
			for (const char *t = TEMPLATES[op]; *t; t++) {
				int s = size_of(*t);
				if (is_index(*t)) {
					uint64_t max = total > fifo(*t) ? fifo(*t) / s : total / s, ix;
					if (max > (1ull << index_bits(*t))) max = 1ull << index_bits(*t);
					switch (rnd(4)) { // the edges of the window matter most
					case 0: ix = max - 1 - rnd(max < 4 ? max : 4); break;
					case 1: { uint64_t pos = total % fifo(*t) / s; ix = (pos + max - rnd(3)) % max; break; }
					default: ix = rnd(max);
					}
					w.put(ix, index_bits(*t));
					uint64_t off = resolve(*t, ix, total);
					for (int i = 0; i < s; i++) data.push_back(data[off + i]);
				} else {
					uint64_t d = rnd(3) ? (rnd(1ull << 32) << 32 | rnd(1ull << 32)) : rnd(5);
					if (s < 8) d &= (1ull << (8 * s)) - 1;
					w.put(d, 8 * s);
					for (int i = s - 1; i >= 0; i--) data.push_back((uint8_t)(d >> (8 * i)));
				}
			}
	}
	if (short_data) {
		int k = 1 + rnd(7);
		w.put(0x1d, 5); w.put(k, 3);
		while (k--) { uint64_t d = rnd(256); w.put(d, 8); data.push_back((uint8_t)d); }
	}
	w.put(0x1e, 5);
	w.put(crc(data.data(), data.size()), 32);
	w.pad8();
	stream = w.b;
}

// Data of a seeded shape (no decisions: everything from `r`)
inline void shape(uint64_t (*mix)(uint64_t), uint64_t r, int kind, uint8_t *p, size_t n)
{
	uint64_t k = 0;
	auto word = [&](size_t j) -> uint64_t {
		uint64_t x = mix(r + j * 0x9e3779b9ull);
		switch (kind) {
		case 0: return 0;
		case 1: return x;
		case 2: return (x % 17) * 0x0101010101010101ull;
		case 3: { // runs around the repeat limit
			uint64_t seg = j / (60 + r % 12);
			return mix(r ^ seg * 77);
		}
		case 4: return mix(r + x % 40);
		case 5: return (x & 0xffff0000ffff0000ull) | (r & 0xffff);
		case 6: return mix(r + j % (250 + r % 16));                          // around the 8-byte window
		case 7: return (mix(r + j % 509) & 0xffffffff) | mix(j + r) << 32;   // around the 4-byte window
		case 8: return (mix(r + j % 255) & 0xffff) | (mix(j * 3 + r) << 16); // 2-byte window
		case 9: return (j % 5 == 0) ? x : mix(j / 9 + r);
		case 10: return x % 3 ? 0 : x & 0xff;
		case 11: return (x & 1) ? mix(r + (x >> 8) % 300) : ((mix(r + (x >> 8) % 300) & 0xffffffff) << 32 | (mix(r + (x >> 20) % 300) >> 32));
		case 12: { // pieces of earlier words in every position
			uint64_t a = mix(r + (x >> 1) % 60), b = mix(r + (x >> 9) % 60);
			switch (x % 6) {
			case 0: return a;
			case 1: return (a & 0xffff00000000ffffull) | (b & 0x0000ffffffff0000ull);
			case 2: return (a & 0xffffffff00000000ull) | (x & 0xffffffff);
			case 3: return (x & 0xffff000000000000ull) | (a & 0x0000ffff0000ffffull) | (b & 0x00000000ffff0000ull);
			case 4: return (a << 32) | (b >> 32);
			default: return x;
			}
		}
		default: return j < n / 16 ? r : x;
		}
	};
	size_t j = 0;
	for (; (j + 1) * 8 <= n; j++) { uint64_t v = word(j); memcpy(p + j * 8, &v, 8); }
	if (j * 8 < n) { uint64_t v = word(j); memcpy(p + j * 8, &v, n - j * 8); }
	(void)k;
}
static const int NSHAPES = 14;
} // namespace ref842
