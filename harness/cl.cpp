// The OpenCL decompressor on a simulated OpenCL platform (fakecl.h) with its program
// cache on a simulated disk (disk.h).
#include "fakecl.h"
#include "disk.h"
#include "ref842.h"
#define CL_HPP_MINIMUM_OPENCL_VERSION 120
#define CL_HPP_TARGET_OPENCL_VERSION 120
#define CL_HPP_ENABLE_EXCEPTIONS
#include <lib842/cl.h>
#include <lib842/common.h>
#include <lib842/sw.h>
#include <memory>
#include <ostream>
#include <streambuf>

using namespace sim;
using ref842::Bytes;
using lib842::CLDeviceDecompressor;
using lib842::CLHostDecompressor;
using Fmt = lib842::CLDecompressorInputFormat;

// sources of the kernel, as the build generates them; what the library sees can be switched
// to another version (an upgraded library)
extern "C" const char *const cl842_real_defs, *const cl842_real_kernel;
const char *LIB842_CLDECOMPRESS_842DEFS_SOURCE;
const char *LIB842_CLDECOMPRESS_KERNEL_SOURCE;

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
static NullBuf nullbuf;
static std::ostream *nullout;

static void setup()
{
	LIB842_CLDECOMPRESS_842DEFS_SOURCE = cl842_real_defs;
	LIB842_CLDECOMPRESS_KERNEL_SOURCE = cl842_real_kernel;
	nullout = new std::ostream(&nullbuf);
	std::cout.rdbuf(&nullbuf);
	std::cerr.rdbuf(&nullbuf);
	disk::start();
}

// ------------------------------------------------------------------ batches
static const size_t LOOKAHEAD = 6; // words the in-place mode may rely on (see cl.h: less is known to be broken)
// can this stream be decompressed in place in a slot of the given size?
static bool inplace_ok(const Bytes &st, size_t slot)
{
	ref842::BitReader r{st.data(), st.size()};
	size_t words = st.size() / 8, o = 0, base = (slot - st.size()) / 8;
	auto writable = [&](size_t idx) {
		size_t c = (r.pos + 63) / 64;
		return c + LOOKAHEAD >= words || idx < base + c + LOOKAHEAD;
	};
	uint64_t v;
	for (;;) {
		if (!r.get(5, &v)) return false;
		if (v < 26) {
			for (const char *t = ref842::TEMPLATES[v]; *t; t++) { uint64_t x; if (!r.get(ref842::is_index(*t) ? ref842::index_bits(*t) : 8 * ref842::size_of(*t), &x)) return false; }
			if (!writable(o++)) return false;
		} else if (v == 0x1b) {
			uint64_t rep;
			if (!r.get(6, &rep)) return false;
			for (uint64_t i = 0; i <= rep; i++) if (!writable(o++)) return false;
		} else if (v == 0x1c) { if (!writable(o++)) return false; }
		else return v == 0x1e;
	}
}
struct Chunk {
	Bytes data, stored;   // original, compressed stream (possibly damaged)
	bool verbatim = false, skip = false, damaged = false, tight = false;
	Bytes expect; bool must_ok = false, may_ok = true; // what the reference makes of it
	size_t cap;           // capacity passed
};
static void one_chunk(Chunk &c, Fmt fmt, size_t chunk_size, size_t max_stored, bool allow_damage, bool have_osz)
{
	NoFault nf;
	bool full = fmt != Fmt::ALWAYS_COMPRESSED_CHUNKS;
	size_t n = full ? chunk_size : 8 * pick("words", chunk_size / 8 + 1);
	uint64_t kind = pick("writer", 4);
	for (int attempt = 0;; attempt++) {
		if (kind == 2 && !full) {
			uint64_t seed = bits64("refseed"), k = 0;
			ref842::write_random([&](uint64_t m) { return m ? data64(seed, k++) % m : 0; }, pick("refops", n / 8 + 1), false, pick("refflavour", 3), c.stored, c.data);
			if (c.data.size() <= chunk_size && c.stored.size() <= max_stored) break;
			kind = 0;
		}
		c.data.resize(n);
		uint64_t sh = pick("shape", ref842::NSHAPES);
		if (full && sh == 1 && pick("nonrandom", 3)) sh = 6;
		ref842::shape(mix64, data64(bits64("data"), 3), sh, c.data.data(), n);
		if (full && pick("halfzero", 3) == 0) { size_t at = pick("zat", n / 8 + 1) * 8; memset(c.data.data() + at, 0, n - at); }
		c.stored.resize(n * 2 + 64);
		size_t l = c.stored.size();
		int r = kind & 1 ? optsw842_compress(c.data.data(), n, c.stored.data(), &l) : sw842_compress(c.data.data(), n, c.stored.data(), &l);
		if (r) violate("write-failed", "compressor failed: %d", r);
		c.stored.resize(l);
		if (full) {
			c.verbatim = l + 24 > chunk_size || (fmt == Fmt::INPLACE_COMPRESSED_CHUNKS && !inplace_ok(c.stored, chunk_size)) || pick("verbatim", 6) == 5;
			if (pick("skip", 8) == 7) { c.skip = true; c.verbatim = false; }
			break;
		}
		if (l <= max_stored) break;
		n = n / 16 * 8; // an incompressible chunk that does not fit its slot
	}
	c.cap = full ? chunk_size : c.data.size() + 8 * pick("slack", (chunk_size - c.data.size()) / 8 + 1);
	if (allow_damage && !c.verbatim && !c.skip && pick("damage", 4) == 3) {
		c.damaged = true;
		fault("stored-damage");
		for (int k = 1 + pick("ndamage", 2); k--;)
			switch (pick("damagekind", 4)) {
			case 0: c.stored[pick("at", c.stored.size())] ^= 1 << pick("bit", 8); break;
			case 1: { size_t a = pick("at", c.stored.size()), l = 1 + pick("dlen", 16); for (size_t i = a; i < a + l && i < c.stored.size(); i++) c.stored[i] = (uint8_t)pick("byte", 256); break; }
			case 2: c.stored.resize(full ? 8 * (1 + pick("cut", c.stored.size() / 8)) : 1 + pick("cut", c.stored.size())); break;
			default: { size_t a = pick("at", c.stored.size() / 8 + 1) * 8; for (size_t i = a; i < c.stored.size(); i++) c.stored[i] = 0; }
			}
	}
	if (!full && have_osz && pick("tight", 8) == 7 && c.data.size()) { c.cap = pick("tightcap", c.data.size()); c.tight = true; }
}
// What the format says about a stream when its checksum is ignored (the kernel documents that it does not check it)
static int ref_nocrc(const Bytes &st, size_t cap, Bytes &out)
{
	int r = ref842::decode(st.data(), st.size() / 8 * 8, cap, out);
	(void)r;
	// decode() fails on a checksum mismatch only after having produced everything
	ref842::BitReader br{st.data(), st.size() / 8 * 8};
	uint64_t v;
	for (;;) {
		if (!br.get(5, &v)) return -EINVAL;
		if (v < 26) { for (const char *t = ref842::TEMPLATES[v]; *t; t++) { uint64_t x; if (!br.get(ref842::is_index(*t) ? ref842::index_bits(*t) : 8 * ref842::size_of(*t), &x)) return -EINVAL; } }
		else if (v == 0x1b) { if (!br.get(6, &v)) return -EINVAL; }
		else if (v == 0x1c) {}
		else if (v == 0x1e) break;
		else return -EINVAL;
	}
	if (!br.get(32, &v)) return -EINVAL;
	// complete: did the reference stop early because of an index, a repeat or the capacity?
	size_t words = 0;
	ref842::BitReader b2{st.data(), st.size()};
	for (;;) {
		b2.get(5, &v);
		if (v < 26) { for (const char *t = ref842::TEMPLATES[v]; *t; t++) { uint64_t x; b2.get(ref842::is_index(*t) ? ref842::index_bits(*t) : 8 * ref842::size_of(*t), &x); } words++; }
		else if (v == 0x1b) { b2.get(6, &v); words += v + 1; }
		else if (v == 0x1c) words++;
		else break;
	}
	return out.size() == words * 8 ? 0 : -EINVAL;
}

struct Config { size_t chunk, stride; Fmt fmt; };
static Config pick_config()
{
	static const size_t sizes[] = {64, 256, 1024, 4096};
	Config c;
	c.fmt = (Fmt)pick("fmt", 3);
	c.chunk = sizes[pick("chunksize", 4)];
	static const size_t big_sizes[] = {16384, 65536, 131072, 1 << 19};
	if (rare("bigchunk", 4, 1, 16)) { c.chunk = big_sizes[pick("bigsize", 4)]; probe("big-chunks"); } // (as big as those of the streams, and bigger)
	c.stride = c.fmt == Fmt::ALWAYS_COMPRESSED_CHUNKS ? (pick("stride", 2) ? c.chunk * 2 : c.chunk + 64) : c.chunk;
	return c;
}
static const char *fmt_name(Fmt f) { return f == Fmt::ALWAYS_COMPRESSED_CHUNKS ? "always" : f == Fmt::MAYBE_COMPRESSED_CHUNKS ? "maybe" : "inplace"; }

struct Batch {
	Config cfg;
	size_t n;
	bool have_isz, have_osz, have_ret, have_map;
	std::vector<Chunk> ch;
	Bytes in, out0;                     // images before the call
	std::vector<size_t> isz, osz, map;
	void make(const Config &c, bool allow_damage, bool device_level)
	{
		cfg = c;
		size_t maxn = 12;
		if (c.chunk > 4096) maxn = c.chunk > 65536 ? 1 : 3;
		n = 1 + pick("nchunks", maxn);
		if (c.chunk <= 256 && rare("manychunks", 2, 1, 24)) { n = 240 + pick("nchunks2", 300); probe("many-chunks"); } // more than a work group
		bool dmg = allow_damage && chance("damagebatch", 1, 2);
		have_isz = pick("noisz", 4) != 3;
		have_osz = pick("noosz", 4) != 3;
		have_ret = dmg || pick("noret", 4) != 3;
		have_map = pick("map", 2);
		bool full = c.fmt != Fmt::ALWAYS_COMPRESSED_CHUNKS;
		ch.resize(n);
		in.assign(n * c.stride, 0x11);
		out0.assign(n * c.chunk, 0x77);
		isz.resize(n); osz.resize(n); map.resize(n);
		for (size_t i = 0; i < n; i++) {
			Chunk &k = ch[i];
			one_chunk(k, c.fmt, c.chunk, c.stride, dmg, have_osz);
			if (!have_osz) k.cap = c.chunk;
			uint8_t *slot = &in[i * c.stride];
			if (!full) memcpy(slot, k.stored.data(), k.stored.size());
			else if (k.verbatim) {
				// data that almost looks like a marked chunk
				uint64_t near = rare("nearmarker", 4, 1, 5);
				if (near) {
					memcpy(k.data.data(), LIB842_COMPRESSED_CHUNK_MARKER, 16);
					if (near == 1) k.data[pick("offbyte", 16)] ^= 1 << pick("offbit", 8);
					else { uint64_t x = bits64("half"); memcpy(k.data.data() + (near == 2 ? 0 : 8), &x, 8); }
					if (!memcmp(k.data.data(), LIB842_COMPRESSED_CHUNK_MARKER, 16)) k.data[0] ^= 1;
					probe("near-marker");
				}
				memcpy(slot, k.data.data(), c.chunk);
			}
			else {
				memcpy(slot, LIB842_COMPRESSED_CHUNK_MARKER, 16);
				uint64_t l = k.skip ? 0 : k.stored.size();
				memcpy(slot + 16, &l, 8);
				if (!k.skip) memcpy(slot + c.chunk - k.stored.size(), k.stored.data(), k.stored.size());
				if (dmg && !k.skip && pick("hdrdamage", 6) == 5) { // the embedded length itself
					uint64_t bad = pick("hdrkind", 2) ? bits64("hdrlen") : c.chunk + pick("hdrover", 100);
					memcpy(slot + 16, &bad, 8);
					k.damaged = true; k.may_ok = bad <= c.chunk - 24;
					if (k.may_ok) { bad = bad / 8 * 8; k.stored.assign(slot + c.chunk - bad, slot + c.chunk); }
					fault("header-damage");
				}
			}
			isz[i] = full ? c.chunk : k.stored.size();
			osz[i] = k.cap;
			if (k.verbatim) { k.expect = k.data; k.must_ok = true; }
			else if (k.skip) { k.must_ok = true; }
			else if (k.may_ok) {
				Bytes seen = have_isz || full ? k.stored : Bytes(slot, slot + c.stride); // without sizes, everything in the slot
				int r = ref_nocrc(seen, k.cap, k.expect);
				k.may_ok = r == 0;
				k.must_ok = !k.damaged && !k.tight;
				if (k.must_ok && (r || k.expect != k.data)) violate("write-failed", "reference cannot read the stored chunk");
			}
			if (c.fmt == Fmt::INPLACE_COMPRESSED_CHUNKS && k.damaged) k.expect.clear(); // may legitimately overwrite its own input
			if (k.skip && c.fmt != Fmt::INPLACE_COMPRESSED_CHUNKS) k.expect.assign(c.chunk, 0x77);
			if (k.skip && c.fmt == Fmt::INPLACE_COMPRESSED_CHUNKS) k.expect.assign(slot, slot + c.chunk);
			if (k.damaged || k.tight) probe("bad-chunk");
			map[i] = i;
		}
		if (have_map) for (size_t i = n; i > 1; i--) std::swap(map[i - 1], map[pick("mapperm", i)]);
		(void)device_level;
		sample("%s/%zu x%zu", fmt_name(c.fmt), c.chunk, n);
	}
	// out: n slots of cfg.chunk; sizes/rets may be null
	void judge(const uint8_t *out, const size_t *sizes, const int *rets, const char *what)
	{
		for (size_t i = 0; i < n; i++) {
			Chunk &k = ch[i];
			int r = rets ? rets[i] : 0;
			event("chunk", i, r);
			if (k.must_ok && r) violate("chunk-failed", "%s: intact chunk %zu (%zu bytes) of %zu reported as failed: %d", what, i, k.data.size(), n, r);
			if (rets && !r && !k.may_ok) violate("chunk-accepted", "%s: chunk %zu cannot be decoded into its capacity, but is reported as fine", what, i);
			if (rets && r > 0) violate("bad-return-code", "%s: chunk %zu: code %d", what, i, r);
			if (sizes && sizes[i] > k.cap) violate("size-over-capacity", "%s: chunk %zu: size %zu, capacity %zu", what, i, sizes[i], k.cap);
			bool judged = rets ? r == 0 : k.must_ok;
			if (judged && !(cfg.fmt == Fmt::INPLACE_COMPRESSED_CHUNKS && k.damaged)) {
				if (sizes && sizes[i] != k.expect.size()) violate("wrong-size", "%s: chunk %zu: size %zu instead of %zu", what, i, sizes[i], k.expect.size());
				if (memcmp(out + i * cfg.chunk, k.expect.data(), k.expect.size())) {
					size_t d = 0;
					while (out[i * cfg.chunk + d] == k.expect[d]) d++;
					violate("wrong-data", "%s: chunk %zu of %zu (%s%s, %zu bytes) differs at byte %zu", what, i, n, k.verbatim ? "verbatim" : k.skip ? "skipped" : "compressed", k.damaged ? ", damaged" : "", k.expect.size(), d);
				}
			}
			state(mix64((uint64_t)cfg.fmt | (uint64_t)k.verbatim << 2 | (uint64_t)k.skip << 3 | (uint64_t)k.damaged << 4 | (uint64_t)k.tight << 5 | (uint64_t)(r + 200) << 8 | (uint64_t)have_map << 20 | (uint64_t)have_isz << 21 | (uint64_t)have_osz << 22));
		}
		if (n > 1) nontrivial();
	}
};

static std::unique_ptr<CLDeviceDecompressor> make_device(const cl::Context &ctx, const cl::vector<cl::Device> &devs, const Config &c)
{
	Lib l;
	return std::unique_ptr<CLDeviceDecompressor>(new CLDeviceDecompressor(ctx, devs, c.chunk, c.stride, c.fmt, []() -> std::ostream & { return *nullout; }, []() -> std::ostream & { return *nullout; }));
}

// exact-size host buffer
struct HBuf { uint8_t *p; size_t n; HBuf(size_t n_) : n(n_) { User u; NoFault nf; p = (uint8_t *)malloc(n ? n : 1); memset(p, 0x77, n); } ~HBuf() { User u; free(p); } };

struct Thrown { bool cl = false, alloc = false, other = false; int err = 0; };
template <typename F> static Thrown guarded(F f)
{
	Thrown t;
	int lib = tl_lib;
	try { f(); }
	catch (const cl::Error &ex) { tl_lib = lib; t.cl = true; t.err = ex.err(); }
	catch (const std::bad_alloc &) { tl_lib = lib; t.alloc = true; }
	catch (const std::exception &ex) { tl_lib = lib; t.other = true; logf("exception %s", ex.what()); }
	return t;
}

// One call of the host-level interface; judged
static bool host_call(const CLHostDecompressor &d, Batch &b, bool faults)
{
	bool inplace = b.cfg.fmt == Fmt::INPLACE_COMPRESSED_CHUNKS;
	HBuf in(b.in.size()), out(b.out0.size());
	memcpy(in.p, b.in.data(), b.in.size());
	HBuf outf(inplace ? 0 : b.out0.size());
	uint8_t *o = inplace ? in.p : out.p;
	std::vector<size_t> osz(b.osz), isz(b.isz), map(b.map);
	std::vector<int> rets(b.n, 12345);
	long long tm = 0;
	fcl::active_items = b.n;
	if (pick("misuse", 12) == 11 && b.in.size() && b.out0.size()) {
		// what the format does not allow is refused, not carried out
		size_t on = b.out0.size();
		uint8_t *mo = o;
		if (inplace && pick("otherbuf", 2)) mo = out.p;
		else if (inplace || (b.cfg.fmt == Fmt::MAYBE_COMPRESSED_CHUNKS && pick("othersize", 2))) on -= 8;
		else mo = in.p;
		Thrown t = guarded([&] { Lib l; d.decompress(in.p, b.in.size(), nullptr, mo, on, nullptr, nullptr, nullptr, nullptr); });
		if (!t.cl && !t.alloc) violate("misuse-accepted", "buffers the format does not allow were not refused");
		if (memcmp(in.p, b.in.data(), b.in.size()) || (!inplace && !b.out0.empty() && memcmp(out.p, b.out0.data(), b.out0.size()))) violate("misuse-accepted", "a refused decompression changed a buffer");
		probe("misuse-refused");
	}
	fcl::tl_call++;
	int f0 = fcl::tl_api_faults; uint64_t a0 = tl_alloc_failures;
	Thrown t = guarded([&] {
		Lib l;
		d.decompress(in.p, b.in.size(), b.have_isz ? isz.data() : nullptr, o, b.out0.size(), b.have_osz ? osz.data() : nullptr,
			     b.have_map ? map.data() : nullptr, b.have_ret ? rets.data() : nullptr, pick("time", 2) ? &tm : nullptr);
	});
	bool hit = fcl::tl_api_faults != f0 || tl_alloc_failures != a0;
	event("host-call", t.cl | t.alloc << 1 | t.other << 2, hit);
	if (t.other) violate("wrong-exception", "decompress threw something other than an OpenCL error or bad_alloc");
	bool threw = t.cl || t.alloc;
	if (hit && !threw) violate("failure-not-reported", "a device operation failed but decompress reported success");
	if (!hit && threw) violate("spurious-failure", "decompress failed with OpenCL error %d although nothing failed", t.err);
	if (hit) { nontrivial(); probe("failure-surfaced"); }
	if (!inplace && memcmp(in.p, b.in.data(), b.in.size())) violate("input-changed", "the input buffer was modified");
	if (!threw) b.judge(o, b.have_osz ? osz.data() : nullptr, b.have_ret ? rets.data() : nullptr, "host");
	(void)faults;
	return !threw;
}
// One call of the device-level interface with buffers of our own
static void device_call(const CLDeviceDecompressor &d, const cl::Context &ctx, const cl::CommandQueue &q, Batch &b)
{
	bool inplace = b.cfg.fmt == Fmt::INPLACE_COMPRESSED_CHUNKS;
	size_t ioff = 8 * pick("ioff", 4), ooff = inplace ? ioff : 8 * pick("ooff", 4), tail = 8 * pick("otail", 3);
	// offsets that 32 bits cannot hold
	size_t far = rare("far", 3, 1, 24);
	if (far) { fcl::max_buffer = (size_t)1 << 40; if (far & 1) ioff += (size_t)1 << 32; if (far & 2 && !inplace) ooff += (size_t)1 << (31 + pick("how-far", 3)); if (inplace) ooff = ioff; probe("far-offsets"); }
	size_t seen = ooff < 4096 ? ooff : 4096; // bytes in front of the output that are looked at
	uint32_t den = fcl::api_den; bool ef = fcl::exec_faults;
	fcl::api_den = 0; fcl::exec_faults = false; // preparing the buffers is the application's business
	auto mk = [&](const void *p, size_t n, size_t off, size_t tail, uint8_t fill) {
		if (off >> 31) {
			cl::Buffer b(ctx, CL_MEM_READ_WRITE, off + n + tail);
			memset(b()->p + off - 4096, fill, 4096 + n + tail);
			if (n) memcpy(b()->p + off, p, n);
			return b;
		}
		std::vector<uint8_t> img(off + n + tail, fill);
		if (n) memcpy(&img[off], p, n);
		return cl::Buffer(ctx, CL_MEM_READ_WRITE | CL_MEM_COPY_HOST_PTR, img.size(), img.data());
	};
	cl::Buffer ibuf = mk(b.in.data(), b.in.size(), ioff, inplace ? 64 : 0, 0x33), obuf, iszb, oszb, mapb, retb;
	if (inplace) obuf = ibuf; else obuf = mk(b.out0.data(), b.out0.size(), ooff, tail, 0x44);
	std::vector<cl_ulong> isz(b.isz.begin(), b.isz.end()), osz(b.osz.begin(), b.osz.end()), map(b.map.begin(), b.map.end());
	std::vector<cl_int> rets(b.n, 12345);
	if (b.have_isz) iszb = mk(isz.data(), 8 * b.n, 0, 0, 0);
	if (b.have_osz) oszb = mk(osz.data(), 8 * b.n, 0, 0, 0);
	if (b.have_map) mapb = mk(map.data(), 8 * b.n, 0, 0, 0);
	if (b.have_ret) retb = mk(rets.data(), 4 * b.n, 0, 0, 0);
	if (inplace && !far && pick("misuse", 8) == 7) {
		// what the format does not allow is refused, not carried out
		cl::Buffer other = pick("otherbuf", 2) ? mk(b.in.data(), b.in.size(), ioff, 64, 0x33) : ibuf;
		size_t oo = other() == ibuf() || pick("otheroff", 2) ? ioff + 8 : ioff;
		Bytes image(ibuf()->p, ibuf()->p + ibuf()->size), oimage(other()->p, other()->p + other()->size);
		Thrown t = guarded([&] { Lib l; cl::Event ev; d.decompress(q, b.n, ibuf, ioff, iszb, other, oo, oszb, mapb, retb, nullptr, &ev); User u; ev.wait(); });
		if (!t.cl && !t.alloc) violate("misuse-accepted", "in-place decompression with another output buffer or offset was not refused");
		if (memcmp(image.data(), ibuf()->p, image.size()) || memcmp(oimage.data(), other()->p, oimage.size())) violate("misuse-accepted", "refused in-place decompression changed a buffer");
		probe("misuse-refused");
	}
	// the input may still be on its way when the decompression is asked for
	cl::CommandQueue uq;
	cl::vector<cl::Event> before;
	Bytes image;
	if (b.in.size() && pick("upload", 3) == 0) {
		image = b.in;
		uint64_t stale = bits64("stale");
		for (size_t i = 0; i < b.in.size(); i++) ibuf()->p[ioff + i] = (uint8_t)data64(stale, i);
		uq = pick("samequeue", 2) ? q : cl::CommandQueue(ctx, q.getInfo<CL_QUEUE_DEVICE>(), pick("uooo", 2) ? CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE : 0);
		size_t half = pick("split", b.in.size() + 1);
		cl::Event e1, e2;
		if (half) { uq.enqueueWriteBuffer(ibuf, CL_FALSE, ioff, half, &image[0], nullptr, &e1); before.push_back(e1); }
		if (half < b.in.size()) { uq.enqueueWriteBuffer(ibuf, CL_FALSE, ioff + half, b.in.size() - half, &image[half], nullptr, &e2); before.push_back(e2); }
		probe("input-on-its-way");
	}
	fcl::api_den = den; fcl::exec_faults = ef;
	fcl::active_items = b.n;
	fcl::tl_call++;
	int f0 = fcl::tl_api_faults; uint64_t a0 = tl_alloc_failures;
	Thrown t = guarded([&] {
		Lib l;
		cl::Event ev;
		d.decompress(q, b.n, ibuf, ioff, iszb, obuf, ooff, oszb, mapb, retb, before.empty() ? nullptr : &before, &ev);
		User u;
		ev.wait();
	});
	bool hit = fcl::tl_api_faults != f0 || tl_alloc_failures != a0, threw = t.cl || t.alloc;
	event("device-call", t.cl | t.alloc << 1 | t.other << 2, hit);
	if (t.other) violate("wrong-exception", "decompress threw something other than an OpenCL error or bad_alloc");
	if (hit && !threw) violate("failure-not-reported", "a device operation failed but decompress reported success");
	if (!hit && threw) violate("spurious-failure", "decompress failed with OpenCL error %d although nothing failed", t.err);
	if (threw) { probe("failure-surfaced"); nontrivial(); }
	fcl::api_den = 0; fcl::exec_faults = false;
	q.finish();
	if (uq()) uq.finish();
	if (!threw) {
		cl_mem o = obuf();
		const uint8_t *p = o->p;
		if (!inplace) {
			for (size_t i = ooff - seen; i < ooff; i++) if (p[i] != 0x44) violate("outside-slots", "byte %zu before the output changed", ooff - i);
			for (size_t i = 0; i < tail; i++) if (p[ooff + b.out0.size() + i] != 0x44) violate("outside-slots", "byte %zu after the output changed", i);
			if (memcmp(ibuf()->p + ioff, b.in.data(), b.in.size())) violate("input-changed", "the input buffer was modified");
			// within a slot, nothing beyond the capacity may change (compressed chunks)
			if (b.have_osz)
				for (size_t i = 0; i < b.n; i++) if (!b.ch[i].verbatim)
					for (size_t k = b.ch[i].cap; k < b.cfg.chunk; k++) if (p[ooff + i * b.cfg.chunk + k] != 0x77) violate("outside-slots", "chunk %zu: byte %zu beyond the capacity %zu changed", i, k, b.ch[i].cap);
		}
		std::vector<size_t> sizes(b.n); std::vector<int> rv(b.n);
		if (b.have_osz) for (size_t i = 0; i < b.n; i++) { cl_ulong v; memcpy(&v, oszb()->p + 8 * i, 8); sizes[i] = v; }
		if (b.have_ret) memcpy(rv.data(), retb()->p, 4 * b.n);
		b.judge(p + ooff, b.have_osz ? sizes.data() : nullptr, b.have_ret ? rv.data() : nullptr, "device");
	}
	fcl::api_den = den; fcl::exec_faults = ef;
}

static void world()
{
	// platforms and devices, in any constellation that has at least one usable device
	static const char *const names[] = {"SimGPU", "SimGPU", "SimGPU 2", "SimCPU with a rather long device name (tm) 3000"};
	int np = 1 + pick("platforms", 2);
	bool any = false;
	for (int i = 0; i < np; i++) {
		auto p = fcl::add_platform(i ? "Simulated B" : "Simulated A");
		int nd = pick("devices", 3) + (i == np - 1 && !any);
		for (int k = 0; k < nd; k++) {
			int w = pick("device", 4);
			auto d = fcl::add_device(p, w == 3 ? CL_DEVICE_TYPE_CPU : CL_DEVICE_TYPE_GPU, names[w], "1.0", pick("strict", 2) == 0);
			if (pick("unavailable", 6) == 5 && !(i == np - 1 && k == nd - 1)) d->available = false;
			else any = true;
		}
	}
}
static std::vector<cl_device_id> usable()
{
	for (auto t : {CL_DEVICE_TYPE_GPU, CL_DEVICE_TYPE_CPU})
		for (auto p : fcl::platforms) {
			std::vector<cl_device_id> r;
			for (auto d : p->devs) if (d->available && (d->type & t)) r.push_back(d);
			if (!r.empty()) return r;
		}
	return {};
}

// ------------------------------------------------------------------ C16
static std::unique_ptr<CLHostDecompressor> make_host(const Config &c, bool profile)
{
	Lib l;
	return std::unique_ptr<CLHostDecompressor>(new CLHostDecompressor(c.chunk, c.stride, c.fmt, pick("verbose", 2), profile));
}
static void faults_on()
{
	if (chance("apifaults", 1, 2)) { fcl::api_den = 4 + pick("apiden", 60); fcl::exec_faults = chance("execfaults", 1, 2); }
}
static void faults_off() { fcl::api_den = 0; fcl::exec_faults = false; alloc_num = 0; }
static void check_objects(const char *when)
{
	fcl::drain_all();
	std::string s;
	fcl::live_objects(s);
	if (!s.empty()) violate("cl-leak", "OpenCL objects still referenced %s: %s", when, s.c_str());
}
static void cl_calls(const Config &c, int ncalls, bool damage)
{
	std::unique_ptr<CLHostDecompressor> h;
	for (int attempt = 0; attempt < 3 && !h; attempt++) {
		fcl::tl_call++;
	int f0 = fcl::tl_api_faults, g0 = fcl::tl_build_faults; uint64_t a0 = tl_alloc_failures;
		Thrown t = guarded([&] { h = make_host(c, pick("profile", 2)); });
		bool hit = fcl::tl_api_faults != f0 || tl_alloc_failures != a0;
		bool must = fcl::tl_api_faults - f0 > fcl::tl_build_faults - g0; // (reading and writing the cache may absorb allocation failures)
		if (t.other) violate("wrong-exception", "the constructor threw something other than an OpenCL error or bad_alloc");
		if (must && h && fcl::tl_build_faults == g0) violate("failure-not-reported", "constructor succeeded although a device operation failed");
		if (!hit && !h) violate("spurious-failure", "constructor failed with OpenCL error %d although nothing failed", t.err);
		if (!h) { probe("constructor-failed"); if (attempt == 1) faults_off(); }
	}
	for (int k = 0; k < ncalls; k++) {
		Batch b;
		b.make(c, damage, false);
		host_call(*h, b, true);
	}
	faults_off();
	Batch b;
	b.make(c, false, false);
	host_call(*h, b, false); // after failures everything still works
}
static void run_device(bool damage)
{
	setup();
	world();
	std::vector<cl_device_id> dv = usable();
	for (int k = 0; k < 2; k++) {
		Config c = pick_config();
		if (pick("level", 2)) {
			faults_on();
			cl_calls(c, 1 + pick("calls", 3), damage);
		} else {
			cl::vector<cl::Device> devs;
			for (auto d : dv) devs.push_back(cl::Device(d));
			cl::Context ctx(devs);
			cl::CommandQueue q(ctx, devs[pick("whichdev", devs.size())], pick("ooo", 3) ? 0 : CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE);
			std::unique_ptr<CLDeviceDecompressor> d;
			{ NoFault nf; d = make_device(ctx, devs, c); }
			faults_on();
			for (int j = 1 + pick("calls", 3); j--;) { Batch b; b.make(c, damage, true); device_call(*d, ctx, q, b); }
			faults_off();
			Batch b; b.make(c, false, true); device_call(*d, ctx, q, b);
		}
	}
}
// the plain C entry point
static void run_c_api()
{
	setup();
	world();
	faults_on();
	for (int k = 1 + pick("calls", 5); k >= 0; k--) {
		if (k == 0) faults_off();
		Bytes data(8 * pick("words", chance("big", 1, 4) ? 20000 : 600)), st(data.size() * 2 + 64), out;
		if (pick("empty", 16) == 15) data.clear();
		ref842::shape(mix64, data64(bits64("data"), 3), pick("shape", ref842::NSHAPES), data.data(), data.size());
		size_t l = st.size();
		{ NoFault nf; if (optsw842_compress(data.data(), data.size(), st.data(), &l)) violate("write-failed", "compressor failed"); }
		st.resize(l);
		bool damaged = pick("damage", 4) == 3;
		if (damaged) { if (pick("cutit", 2)) st.resize(pick("cut", l)); else st[pick("at", l)] ^= 1 << pick("bit", 8); fault("stored-damage"); }
		size_t cap = data.size() + (pick("exact", 3) ? pick("slack", 40) : 0), olen;
		bool tight = pick("tight", 6) == 5 && data.size();
		if (tight) cap = pick("cap", data.size());
		HBuf in(st.size()), o(cap);
		if (!st.empty()) memcpy(in.p, st.data(), st.size());
		olen = cap;
		fcl::active_items = 1;
		fcl::tl_call++;
	int f0 = fcl::tl_api_faults, g0 = fcl::tl_build_faults; uint64_t a0 = tl_alloc_failures;
		int r = -1;
		Thrown t = guarded([&] { Lib lb; r = cl842_decompress(in.p, st.size(), o.p, &olen); });
		bool hit = fcl::tl_api_faults != f0 || tl_alloc_failures != a0;
		event("c-call", r + 1000, hit);
		if (t.cl || t.alloc || t.other) violate("exception-escapes", "an exception escaped from cl842_decompress");
		if (r > 0) violate("bad-return-code", "cl842_decompress returned %d", r);
		if (hit && r == 0 && fcl::tl_api_faults - f0 > fcl::tl_build_faults - g0 && fcl::tl_build_faults == g0) violate("failure-not-reported", "a device operation failed but cl842_decompress returned 0");
		Bytes exp;
		bool fine = ref_nocrc(st, cap, exp) == 0;
		if (r == 0) {
			if (!fine) violate("chunk-accepted", "undecodable stream accepted");
			if (olen != exp.size() || memcmp(o.p, exp.data(), exp.size())) violate("wrong-data", "cl842_decompress produced other data (%zu bytes instead of %zu)", olen, exp.size());
			probe("c-api-ok");
		} else if (!hit && !damaged && !tight)
			violate("chunk-failed", "cl842_decompress failed with %d on intact input (%zu -> %zu bytes)", r, st.size(), data.size());
		nontrivial();
		state(mix64((uint64_t)(r + 500) | (uint64_t)hit << 20 | (uint64_t)damaged << 21 | (uint64_t)tight << 22));
	}
}
static void c16()
{
	uint64_t s = pick("scenario", 4);
	if (s == 3) run_c_api();
	else run_device(true);
}
#ifndef SIM_NOTHREADS
// several host threads share one decompressor, and use the C entry point
static void run_concurrent()
{
	setup();
	world();
	set_sched_params(20 + pick("memden", 400), 1, 1 + pick("syncden", 4));
	Config c = pick_config();
	fcl::threads_left = 24;
	auto h = make_host(c, pick("profile", 2));
	int nt = 2 + pick("threads", 2);
	std::vector<std::thread> th;
	std::vector<Batch> bs(nt);
	for (int t = 0; t < nt; t++) bs[t].make(c, true, false);
	size_t act = 0;
	for (auto &b : bs) if (b.n > act) act = b.n;
	for (int t = 0; t < nt; t++) {
		bool capi = pick("capi", 3) == 2;
		th.emplace_back([&, t, capi] {
			if (!capi) { host_call(*h, bs[t], false); return; }
			Bytes data(8 * (1 + pick("words", 200))), st(data.size() * 2 + 64);
			ref842::shape(mix64, data64(bits64("data"), 3), pick("shape", ref842::NSHAPES), data.data(), data.size());
			size_t l = st.size();
			sw842_compress(data.data(), data.size(), st.data(), &l);
			HBuf o(data.size());
			size_t ol = data.size();
			int r;
			{ Lib lb; r = cl842_decompress(st.data(), l, o.p, &ol); }
			if (r || ol != data.size() || memcmp(o.p, data.data(), ol)) violate("wrong-data", "concurrent cl842_decompress: code %d, %zu bytes instead of %zu", r, ol, data.size());
		});
	}
	for (auto &t : th) t.join();
	nontrivial();
}
static void c16t() { race_detection(true); if (pick("conc", 2)) run_concurrent(); else { if (pick("allocs", 3) == 0) { alloc_num = 1; alloc_den = 20 + pick("allocden", 100); } fcl::threads_left = 48; uint64_t s = pick("scenario", 4); if (s == 3) run_c_api(); else run_device(true); } }
static void c08t() { race_detection(true); run_concurrent(); }
static void c13t()
{
	alloc_num = 1; alloc_den = 10 + pick("allocden", 100);
	fcl::threads_left = 0;
	if (pick("scenario", 3) == 2) run_c_api(); else { run_device(true); }
	if (alloc_failures()) nontrivial();
}
#endif

// ------------------------------------------------------------------ C15
struct Variant { std::string kernel; };
static std::vector<std::string> *versions;
static std::vector<std::string> *defs_of;   // the 842 definitions that go with each
static void use_version(size_t v) { LIB842_CLDECOMPRESS_KERNEL_SOURCE = (*versions)[v].c_str(); LIB842_CLDECOMPRESS_842DEFS_SOURCE = (*defs_of)[v].c_str(); }

// the disk after a crash, or after anything else happened to it
static void damage_disk(bool crash)
{
	auto files = disk::list();
	if (files.empty()) return;
	std::string f = files[pick("whichfile", files.size())];
	struct stat st;
	if (stat(f.c_str(), &st) || !S_ISREG(st.st_mode)) return;
	Bytes d = disk::slurp(f);
	if (crash) {
		// power loss: what was not synced may be missing
		switch (pick("powerloss", 4)) {
		case 0: return; // only the process died
		case 1: d.clear(); break;
		case 2: for (size_t i = 0; i < d.size(); i += 512) if (pick("lostblock", 2)) memset(&d[i], 0, d.size() - i < 512 ? d.size() - i : 512); break;
		default: d.resize(pick("lostfrom", d.size() + 1));
		}
		fault("power-loss");
	} else
		switch (pick("corruption", 8)) {
		case 0: d.resize(pick("truncate", d.size() + 1)); fault("file-truncated"); break;
		case 1: if (!d.empty()) for (int k = 1 + pick("nflips", 3); k--;) d[pick("flipat", d.size())] ^= 1 << pick("flipbit", 8); fault("file-bit-flip"); break;
		case 2: { size_t n = pick("garbagelen", 400); d.resize(n); uint64_t s = bits64("garbage"); for (size_t i = 0; i < n; i++) d[i] = (uint8_t)data64(s, i); fault("file-garbage"); break; }
		case 3: // an 8-byte field (length, count) takes another value
			if (d.size() >= 8) {
				size_t at = pick("fieldat", d.size() - 7);
				if (pick("early", 2)) at = pick("fieldat2", d.size() < 96 ? d.size() - 7 : 96) / 4 * 4;
				if (at + 8 > d.size()) at = d.size() - 8;
				static const uint64_t v[] = {0, 1, 0x7fffffff, 0xffffffffull, 1ull << 33, 1ull << 40, 1ull << 63, ~0ull, 3, 1000};
				uint64_t x = v[pick("fieldval", 10)];
				memcpy(&d[at], &x, 8);
			}
			fault("file-field");
			break;
		case 4: { size_t n = 1 + pick("extend", 64); uint64_t s = bits64("garbage"); for (size_t i = 0; i < n; i++) d.push_back((uint8_t)data64(s, i)); fault("file-extended"); break; }
		case 5: if (d.size() > 1) { size_t a = pick("cutat", d.size()), l = 1 + pick("cutlen", 16); if (a + l > d.size()) l = d.size() - a; d.erase(d.begin() + a, d.begin() + a + l); } fault("file-bytes-missing"); break;
		case 6: if (!d.empty()) { size_t a = pick("zeroat", d.size()), l = 1 + pick("zerolen", 600); for (size_t i = a; i < a + l && i < d.size(); i++) d[i] = 0; } fault("file-zeroed"); break;
		default: unlink(f.c_str()); if (pick("asdir", 2)) { mkdir(f.c_str(), 0700); fault("file-is-directory"); } else fault("file-deleted"); return;
		}
	disk::spit(f, d);
}
static std::vector<Bytes> *old_images;

struct Life { Config c; size_t version; bool device_level; size_t subset; };
static std::string expected_ident(cl_device_id d, const Life &l, std::map<std::string, std::string> &opts)
{
	char k[60]; snprintf(k, sizeof k, "%zu/%zu/%d", l.c.chunk, l.c.stride, (int)l.c.fmt);
	return fcl::ident_of(d, (*defs_of)[l.version] + (*versions)[l.version], opts[k]);
}
// one construction and use; judged. Returns whether the program came from the cache
static bool life(const Life &l, std::map<std::string, std::string> &opts, bool learn)
{
	use_version(l.version);
	char key[60]; snprintf(key, sizeof key, "%zu/%zu/%d", l.c.chunk, l.c.stride, (int)l.c.fmt);
	std::vector<cl_device_id> dv = usable();
	uint64_t sb0 = fcl::source_builds;
	fcl::last_program = "";
	Thrown t;
	cl_device_id used = dv[0];
	Batch b;
	{
		std::unique_ptr<CLHostDecompressor> h; std::unique_ptr<CLDeviceDecompressor> d;
		std::unique_ptr<cl::Context> ctx; std::unique_ptr<cl::CommandQueue> q;
		cl::vector<cl::Device> devs;
		if (l.device_level) {
			cl::vector<cl::Device> all;
			for (auto x : dv) all.push_back(cl::Device(x));
			ctx.reset(new cl::Context(all));
			// the decompressor may be wanted on some of the context's devices only
			for (size_t i = 0; i < dv.size(); i++) if (dv.size() == 1 || l.subset == 0 || (l.subset - 1) % dv.size() == i) devs.push_back(cl::Device(dv[i]));
			if (devs.size() > 1 && pick("reversed", 2)) { std::swap(devs[0], devs[1]); probe("devices-in-other-order"); }
			used = devs[0]();
			q.reset(new cl::CommandQueue(*ctx, devs[0]));
			if (devs.size() < all.size()) probe("subset-of-devices");
			t = guarded([&] { d = make_device(*ctx, devs, l.c); });
		} else t = guarded([&] { h = make_host(l.c, false); });
		if (disk::crashed) { fcl::drain_all(); return false; } // nothing this process sees or does counts any more
		if (t.cl || t.alloc || t.other) violate("construction-failed", "constructing a decompressor failed (%s, OpenCL error %d) although only the program cache is damaged or failing", t.cl ? "cl::Error" : t.alloc ? "bad_alloc" : "exception", t.err);
		b.make(l.c, false, false);
		if (h) host_call(*h, b, false); else device_call(*d, *ctx, *q, b);
	}
	if (learn) {
		// options are whatever the library passes when it builds from source
		size_t p1 = fcl::last_program.find('|'), p2 = fcl::last_program.find('|', p1 + 1), p3 = fcl::last_program.find('|', p2 + 1);
		opts[key] = fcl::last_program.substr(p2 + 1, p3 - p2 - 1);
	} else {
		std::string want = expected_ident(used, l, opts);
		// the program identity must be that of a device of the context with the right source and options
		if (fcl::last_program == "damaged") violate("damaged-program", "a program from a damaged cache is used");
		bool match = false;
		for (auto x : dv) if (fcl::last_program == expected_ident(x, l, opts)) match = true;
		if (!match) violate("wrong-program", "the program in use was built for something else: %s instead of %s", fcl::last_program.c_str(), want.c_str());
	}
	bool cached = fcl::source_builds == sb0;
	if (cached) probe("program-from-cache"); else probe("program-from-source");
	event("life", cached);
	return cached;
}
static void c15_common(std::map<std::string, std::string> &opts, std::vector<Config> &cfgs)
{
	setup();
	world();
	versions = new std::vector<std::string>{cl842_real_kernel, std::string(cl842_real_kernel) + "\n// another version of the library\n", cl842_real_kernel};
	defs_of = new std::vector<std::string>{cl842_real_defs, cl842_real_defs, std::string(cl842_real_defs) + "\n// another version of the library\n"};
	old_images = new std::vector<Bytes>;
	for (int i = 0; i < 2; i++) { Config c = pick_config(); cfgs.push_back(c); }
	if (cfgs[1].fmt == Fmt::ALWAYS_COMPRESSED_CHUNKS && pick("samebutstride", 2)) { cfgs[0] = cfgs[1]; cfgs[0].stride = cfgs[1].stride == 2 * cfgs[1].chunk ? cfgs[1].chunk + 64 : 2 * cfgs[1].chunk; }
	// learn what a construction without any cache uses: no file, nothing can be written
	for (auto &c : cfgs) {
		disk::readonly_ = false; disk::den = 0;
		for (auto &f : disk::list()) unlink(f.c_str());
		life(Life{c, 0, false, 0}, opts, true);
	}
	for (auto &f : disk::list()) unlink(f.c_str());
}
static void c15()
{
	std::map<std::string, std::string> opts;
	std::vector<Config> cfgs;
	c15_common(opts, cfgs);
	int lives = 1 + pick("lives", 7);
	for (int k = 0; k < lives; k++) {
		Life l{cfgs[pick("cfg", 2)], (size_t)rare("version", 3, 1, 4), pick("devlevel", 3) == 0, (size_t)pick("subset", 4)};
		disk::crashed = false; disk::crash_after = 0; disk::den = 0; disk::readonly_ = false; disk::mutations = 0;
		// environment changes between runs
		if (rare("driver", 2, 1, 8)) { for (auto p : fcl::platforms) for (auto d : p->devs) d->driver = d->driver == "1.0" ? "1.1" : "1.0"; fault("driver-upgrade"); }
		if (rare("rename", 2, 1, 8)) { auto dv = usable(); dv[pick("renamed", dv.size())]->name = pick("longname", 2) ? "SimGPU 2" : "A different device"; if (pick("accepts", 2)) dv[0]->anyname = true; fault("device-change"); }
		if (rare("order", 2, 1, 8)) { for (auto p : fcl::platforms) if (p->devs.size() > 1) std::swap(p->devs[0], p->devs[1]); fault("device-order"); }
		if (rare("stale", 2, 1, 6) && !old_images->empty()) { auto f = disk::list(); if (f.size() == 1) { disk::spit(f[0], (*old_images)[pick("whichold", old_images->size())]); fault("file-rolled-back"); } }
		// what the disk does during this run
		switch (pick("diskmode", 5)) {
		case 1: disk::den = 1 + pick("diskden", 6); break;
		case 2: disk::crash_after = 1 + pick("crashat", 8); break;
		case 3: disk::readonly_ = true; fault("disk-read-only"); break;
		}
		fcl::bin_den = chance("driverfaults", 1, 4) ? 1 + pick("binden", 4) : 0;
		uint64_t fh = disk::faults_hit;
		life(l, opts, false);
		fcl::bin_den = 0;
		if (disk::faults_hit != fh || disk::crashed) nontrivial();
		bool crashed = disk::crashed;
		disk::crashed = false; disk::crash_after = 0; disk::den = 0; disk::readonly_ = false;
		for (auto &f : disk::list()) { struct stat st; if (!stat(f.c_str(), &st) && S_ISREG(st.st_mode)) old_images->push_back(disk::slurp(f)); }
		if (crashed) damage_disk(true);
		if (rare("corrupt", 2, 1, 2)) { damage_disk(false); nontrivial(); }
		state(mix64(fcl::hash_str(fcl::last_program, 1) ^ (uint64_t)crashed ^ (uint64_t)disk::list().size() << 3));
	}
	// healthy again: works, repairs the cache, and then uses it
	bool dirs = false;
	for (auto &f : disk::list()) { struct stat st; if (!stat(f.c_str(), &st) && S_ISDIR(st.st_mode)) dirs = true; }
	Life l{cfgs[pick("cfg", 2)], 0, false, 0};
	life(l, opts, false);
	bool cached = life(l, opts, false);
	if (!cached && !dirs) violate("cache-not-repaired", "two constructions in a row on a healthy disk: the second one builds from source again");
	check_objects("after everything was destroyed");
}
#ifndef SIM_NOTHREADS
// several processes (here: threads) use the same cache file at the same time
static void c15t()
{
	std::map<std::string, std::string> opts;
	std::vector<Config> cfgs;
	fcl::threads_left = 0;
	set_sched_params(60 + pick("memden", 400), 1, 1 + pick("syncden", 3));
	c15_common(opts, cfgs);
	(void)cfgs;
	int rounds = 1 + pick("rounds", 3);
	for (int r = 0; r < rounds; r++) {
		if (pick("errors", 3) == 2) disk::den = 2 + pick("diskden", 12);
		int nt = 2 + pick("threads", 2);
		std::vector<std::thread> th;
		for (int t = 0; t < nt; t++) {
			Config c = cfgs[pick("cfg", 2)];
			int times = 1 + pick("times", 2);
			th.emplace_back([&, c, times] {
				for (int k = 0; k < times; k++) {
					std::unique_ptr<CLHostDecompressor> h;
					Thrown t = guarded([&] { h = make_host(c, false); });
					if (t.cl || t.alloc || t.other) violate("construction-failed", "constructing a decompressor failed (OpenCL error %d) while others write the cache", t.err);
					Batch b;
					b.make(c, false, false);
					host_call(*h, b, false);
				}
			});
		}
		for (auto &t : th) t.join();
		disk::den = 0;
		nontrivial();
		if (pick("corrupt", 3) == 2) damage_disk(false);
	}
	bool dirs = false;
	for (auto &f : disk::list()) { struct stat st; if (!stat(f.c_str(), &st) && S_ISDIR(st.st_mode)) dirs = true; }
	Life l{cfgs[0], 0, false, 0};
	life(l, opts, false);
	if (!life(l, opts, false) && !dirs) violate("cache-not-repaired", "two constructions in a row on a healthy disk: the second one builds from source again");
}
#endif

#ifdef SIM_NOTHREADS
// ------------------------------------------------------------------ C24: the OpenCL round-trip program
// (the repository's program, compiled once per format; its compressor calls come here)
struct Stored { Bytes data, stored; int changed; };
static std::vector<Stored> *stored_by_program;
static bool spoil;
extern "C" {
#define CDS(v) bool cds_##v##_compress_benchmark_core(const uint8_t *, size_t, size_t *, long long *, long long *, long long *); \
	bool cds_##v##_simple_test_core(const uint8_t *, size_t, uint8_t *, size_t *, uint8_t *, size_t *);
CDS(a) CDS(m) CDS(i) CDS(as) CDS(is)
int cds_compdecomp(const char *, size_t, size_t) { abort(); }
int cds_printf(const char *, ...) { return 1; }
int cds_puts(const char *) { return 1; }
int cds_fprintf(FILE *, const char *, ...) { return 1; }
static int program_compress(int (*f)(const uint8_t *, size_t, uint8_t *, size_t *), const uint8_t *in, size_t n, uint8_t *out, size_t *l)
{
	User u; NoFault nf;
	int r = f(in, n, out, l);
	if (r) return r;
	Stored s{Bytes(in, in + n), Bytes(), 0};
	if (spoil && pick("spoil", 3) == 0) {
		s.changed = 1;
		fault("stored-damage");
		for (int k = 1 + pick("ndamage", 2); k--;) out[pick("at", *l)] ^= 1 << pick("bit", 8);
	}
	s.stored.assign(out, out + *l);
	stored_by_program->push_back(s);
	return 0;
}
int cds_optsw842_compress(const uint8_t *in, size_t n, uint8_t *out, size_t *l) { return program_compress(optsw842_compress, in, n, out, l); }
int cds_sw842_compress(const uint8_t *in, size_t n, uint8_t *out, size_t *l) { return program_compress(sw842_compress, in, n, out, l); }
}
static void c24()
{
	static const struct { const char *name; Fmt fmt; decltype(&cds_a_compress_benchmark_core) core; decltype(&cds_a_simple_test_core) simple; } V[] = {
		{"always", Fmt::ALWAYS_COMPRESSED_CHUNKS, cds_a_compress_benchmark_core, cds_a_simple_test_core},
		{"maybe", Fmt::MAYBE_COMPRESSED_CHUNKS, cds_m_compress_benchmark_core, cds_m_simple_test_core},
		{"inplace", Fmt::INPLACE_COMPRESSED_CHUNKS, cds_i_compress_benchmark_core, cds_i_simple_test_core},
		{"always-sorted", Fmt::ALWAYS_COMPRESSED_CHUNKS, cds_as_compress_benchmark_core, cds_as_simple_test_core},
		{"inplace-sorted", Fmt::INPLACE_COMPRESSED_CHUNKS, cds_is_compress_benchmark_core, cds_is_simple_test_core}};
	static const size_t CHUNK = 65536; // what the driver pads the file to
	setup();
	world();
	stored_by_program = new std::vector<Stored>;
	auto &v = V[pick("variant", 5)];
	if (pick("faults", 2)) { fcl::api_den = 10 + pick("apiden", 150); fcl::exec_faults = pick("execfaults", 2); }
	if (pick("allocs", 5) == 4) { alloc_num = 1; alloc_den = 20 + pick("allocden", 200); }
	bool c_api = false; // (keeps its decompressor for the next call)
	for (int k = 1 + pick("calls", 2); k >= 0; k--) {
		if (k == 0) faults_off();
		spoil = k && pick("spoils", 3) == 2;
		stored_by_program->clear();
		bool simple = pick("simple", 4) == 3;
		c_api |= simple;
		size_t n = simple ? 8 * (1 + pick("words", 100)) : CHUNK * (1 + pick("chunks", 3));
		HBuf in(n), out(simple ? 2 * n + 64 : 0), dec(simple ? n : 0);
		for (size_t at = 0; at < n; at += CHUNK) {
			size_t l = std::min(CHUNK, n - at);
			uint64_t sh = pick("shape", ref842::NSHAPES);
			ref842::shape(mix64, data64(bits64("data"), 3), sh, in.p + at, l);
			if (pick("halfzero", 3) == 0) { size_t z = pick("zat", l / 8 + 1) * 8; memset(in.p + at + z, 0, l - z); }
			if (l == CHUNK && pick("edge", 3) == 0) { // compresses to about what a slot holds
				ref842::shape(mix64, data64(bits64("data"), 3), 1, in.p + at, l);
				size_t z = 8 * (7598 + pick("edgeat", 16));
				memset(in.p + at + z, 0, l - z);
			}
		}
		Bytes before(in.p, in.p + n);
		size_t olen = simple ? out.n : 0, dlen = n;
		long long tc = 0, tn = 0, td = 0;
		fcl::active_items = simple ? 1 : n / CHUNK;
		fcl::tl_call++;
		int f0 = fcl::tl_api_faults, g0 = fcl::tl_build_faults; uint64_t a0 = tl_alloc_failures;
		bool ok = false;
		Thrown t = guarded([&] { Lib l; ok = simple ? v.simple(in.p, n, out.p, &olen, dec.p, &dlen) : v.core(in.p, n, &olen, &tc, &tn, &td); });
		bool hit = fcl::tl_api_faults != f0 || tl_alloc_failures != a0;
		bool changed = false, must_fail = false, room = true; size_t total = 0;
		for (auto &s : *stored_by_program) {
			total += s.stored.size();
			if (!simple && v.fmt != Fmt::ALWAYS_COMPRESSED_CHUNKS && s.stored.size() + 24 > CHUNK) continue; // stored as it is
			if (!simple && v.fmt == Fmt::INPLACE_COMPRESSED_CHUNKS && !inplace_ok(s.stored, CHUNK)) room = false;
			if (!s.changed) continue;
			changed = true;
			Bytes exp;
			int r = ref_nocrc(s.stored, s.data.size(), exp);
			size_t l = std::min(exp.size(), s.data.size());
			if (memcmp(exp.data(), s.data.data(), l)) must_fail = true;
			(void)r;
		}
		event("program", ok, hit | changed << 1);
		if (t.cl || t.other) violate("program-crashed", "compdecomp_cl (%s): an exception other than bad_alloc escaped", v.name);
		if (memcmp(before.data(), in.p, n)) violate("wrong-data", "compdecomp_cl (%s) changed its input", v.name);
		if (ok) {
			if (stored_by_program->size() != (simple ? 1 : n / CHUNK)) violate("false-success", "compdecomp_cl (%s) reports success having compressed %zu chunks of %zu", v.name, stored_by_program->size(), n / CHUNK);
			if (!simple && must_fail) violate("false-success", "compdecomp_cl (%s) reports success although a chunk came back changed", v.name);
			if (fcl::tl_api_faults - f0 > fcl::tl_build_faults - g0 && fcl::tl_build_faults == g0) violate("false-success", "compdecomp_cl (%s) reports success although a device operation failed", v.name);
			if (!simple && olen != total) violate("wrong-size", "compdecomp_cl (%s) reports %zu compressed bytes, there are %zu", v.name, olen, total);
			if (simple && !changed && (dlen != n || memcmp(dec.p, in.p, n))) violate("wrong-data", "compdecomp_cl (%s): the simple test's data came back changed", v.name);
			probe("program-ok");
		} else {
			if (!hit && !changed && room) violate("spurious-failure", "compdecomp_cl (%s) reports failure although nothing failed (%zu bytes)", v.name, n);
			probe(hit ? "program-device-failure" : changed ? "program-saw-damage" : "program-no-room");
		}
		if (hit || changed) nontrivial();
		state(mix64((uint64_t)ok | (uint64_t)hit << 1 | (uint64_t)changed << 2 | (uint64_t)room << 3 | (uint64_t)(&v - V) << 4 | (uint64_t)simple << 8 | (uint64_t)(n / CHUNK) << 9 | (uint64_t)(fcl::tl_api_faults - f0) << 16));
	}
	faults_off();
	if (!c_api) check_objects("after the program ran");
}
#endif

namespace sim {
const Scenario scenarios[] = {
#ifdef SIM_NOTHREADS
	{"C24", c24, nullptr, nullptr},
	{"C15", c15, nullptr, nullptr},
	{"C16", c16, "construction-failed,cache-not,damaged-program,wrong-program", nullptr},
#else
	{"C15", c15t, "data-race", nullptr},
	{"C16", c16t, "construction-failed,cache-not,damaged-program,wrong-program", nullptr},
	{"C13", c13t, "data-race", nullptr},
	{"C08", c08t, nullptr, "data-race"},
#endif
};
const int num_scenarios = sizeof(scenarios) / sizeof(scenarios[0]);
}
#ifdef SIM_NOTHREADS
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=262144:malloc_fill_byte=93:handle_segv=1:detect_stack_use_after_return=0:intercept_tls_get_addr=0"; }
#endif
