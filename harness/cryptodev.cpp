// The kernel crypto-device implementation against a simulated /dev/crypto.
#include "../sim/sim.h"
#include "ref842.h"
#include "fakecryptodev.h"
#include <lib842/hw.h>
#include <lib842/sw.h>
#include <crypto/cryptodev.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <algorithm>
#include <unistd.h>
#include <deque>
#include <map>
#include <thread>
#include <vector>

using namespace sim;
using ref842::Bytes;

// ------------------------------------------------------------------ callers
static size_t live_of(int tid) { size_t n = 0; for (auto &f : files) if (f.open && f.tid == tid) n++; return n; }
static uint8_t *abuf(size_t n, size_t misalign)
{
	User u; NoFault nf;
	uint8_t *p = (uint8_t *)aligned_alloc(65536, (n + misalign + 65535) / 65536 * 65536 + 65536);
	memset(p, 0x6e, n + misalign + 64);
	return p + misalign;
}
// room for strides of any size the interface allows
static uint8_t *hugebuf()
{
	User u; NoFault nf;
	void *p = mmap(nullptr, (5ull << 30), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) violate("harness", "no address space");
	return (uint8_t *)(((uintptr_t)p + 65535) & ~(uintptr_t)65535);
}
static void hugefree(uint8_t *p) { munmap((void *)((uintptr_t)p & ~(uintptr_t)65535), (5ull << 30) - 65536); }
static void afree(uint8_t *p) { free((uint8_t *)((uintptr_t)p & ~(uintptr_t)65535)); }

// the verdict about one call
static void judge(const char *what, int r, bool must_fail, int want, bool had_session)
{
	event(what, (uint64_t)(r + 5000), tl_tid);
	size_t live = live_of(tl_tid);
	if (live > 1) violate("second-session", "thread %d holds %zu descriptors", tl_tid, live);
	if (r > 0) violate("bad-return-code", "%s returned %d", what, r);
	if (must_fail) {
		nontrivial();
		if (r >= 0) violate("failure-not-reported", "%s returned %d although a call it depends on failed", what, r);
		if (tl_errno && r != -tl_errno) violate("wrong-error", "%s returned %d although the request it depends on failed with %d", what, r, -tl_errno);
		if (!had_session && !live) probe("creation-failed-cleanly");
	} else if (r != want)
		violate("wrong-result", "%s returned %d instead of %d although nothing failed", what, r, want);
	state(mix64((uint64_t)live << 8 ^ (uint64_t)open_files << 16 ^ (uint64_t)(r + 5000) << 24 ^ (uint64_t)must_fail << 50 ^ (uint64_t)had_session << 51));
}

// the application has thread-specific data of its own
static pthread_key_t app_key;
static char app_data[64];
static int app_freed[64];
static void app_free(void *p)
{
	ptrdiff_t i = (char *)p - app_data;
	if (i < 0 || i >= 64 || app_freed[i]++) violate("foreign-tsd", "the application's thread-specific data was tampered with");
}
static void check_app()
{
	if (pthread_getspecific(app_key) != app_data + tl_tid % 64) violate("foreign-tsd", "the application's thread-specific data was tampered with");
}

static void caller(int ncalls)
{
	pthread_setspecific(app_key, app_data + tl_tid % 64);
	for (int k = 0; k < ncalls; k++) {
		uint64_t op = pick("op", 8);
		size_t mis = rare("misalign", 5, 1, 6);
		mis = mis == 0 ? 0 : (size_t)1 << (mis - 1);
		size_t live0 = live_of(tl_tid);
		tl_faults = 0; tl_errno = 0;
		uint64_t a0 = tl_alloc_failures + tl_tss_failures;
		if (op == 7) {
			Lib l;
			const lib842_implementation *im = get_hw842_implementation();
			User u;
			bool failed = tl_faults || tl_alloc_failures + tl_tss_failures != a0;
			if (!im || !im->compress || !im->decompress || !im->compress_chunked || !im->decompress_chunked) violate("bad-implementation", "implementation getter returned an incomplete table");
			size_t al = im->required_alignment;
			if (!al || (al & (al - 1)) || al > 0x10000) violate("bad-implementation", "required alignment %zu", al);
			if (al < (size_t)dev_alignmask + 1) violate("bad-implementation", "required alignment %zu, but the device needs %d", al, dev_alignmask + 1);
			if (!im->preferred_alignment) violate("bad-implementation", "preferred alignment 0");
			event("getter", al, failed);
			if (live_of(tl_tid) > 1) violate("second-session", "getter left several descriptors");
			probe("getter");
			continue;
		}
		if (op == 6) { Lib l; int a = hw842_available(); User u; if (a != (dev_present ? 1 : 0)) violate("wrong-result", "hw842_available() is %d", a); continue; }
		bool batch = op >= 4, comp = op % 2 == 0;
		size_t n = batch ? rare("manychunks", 2, 1, 12) ? 254 + pick("chunks", 5) : pick("chunks", 6) : 1;
		bool clean = batch && chance("cleanbatch", 1, 2); // nothing wrong with any chunk
		std::vector<Bytes> data(n), in(n);
		size_t mi = 8, mo = 8;
		for (size_t i = 0; i < n; i++) {
			data[i].resize(n > 6 ? 16 : pick("len", 80) * 8);
			ref842::shape(mix64, data64(bits64("data"), 5), pick("shape", ref842::NSHAPES), data[i].data(), data[i].size());
			if (comp) in[i] = data[i];
			else {
				NoFault nf;
				in[i].resize(data[i].size() * 2 + 64);
				size_t l = in[i].size();
				sw842_compress(data[i].data(), data[i].size(), in[i].data(), &l);
				in[i].resize(l);
				if (!clean && rare("damage", 2, 1, 8)) in[i][pick("at", l)] ^= 0x10;
			}
			if (in[i].size() > mi) mi = in[i].size();
		}
		for (size_t i = 0; i < n; i++) { size_t c = comp ? data[i].size() * 2 + 64 : data[i].size(); if (c > mo) mo = c; }
		mi = (mi + 7) / 8 * 8; mo = (mo + 7) / 8 * 8;
		// strides may be as large as the interface has room for
		size_t edge = batch && n && n < 100 && rare("edge", 2, 1, 40) ? pick("whichedge", 3) + 1 : 0;
		if (edge & 1) { mi = UINT32_MAX / n - pick("below", 3); probe("largest-stride"); }
		if (edge & 2) { mo = UINT32_MAX / n - pick("below", 3); probe("largest-stride"); }
		uint8_t *src = edge & 1 ? hugebuf() + mis : abuf(n * mi, mis), *dst = edge & 2 ? hugebuf() : abuf(n * mo, rare("misalign2", 2, 1, 8) ? 4 : 0);
		for (size_t i = 0; i < n; i++) if (in[i].size()) memcpy(src + i * mi, in[i].data(), in[i].size());
		bool misaligned = (((uintptr_t)src | (uintptr_t)dst) & dev_alignmask) != 0;
		if (misaligned) probe("misaligned-buffers");
		// what the device would answer
		std::vector<int> wret(n, 0); std::vector<size_t> wlen(n), ilens(n), olens(n); std::vector<Bytes> wout(n);
		for (size_t i = 0; i < n; i++) {
			NoFault nf;
			ilens[i] = in[i].size();
			olens[i] = comp ? data[i].size() * 2 + 64 : data[i].size();
			if (!clean && rare("tight", 2, 1, 10)) olens[i] = pick("cap", olens[i] + 1);
			if (batch && rare("skip", 2, 1, 6)) { ilens[i] = SIZE_MAX; continue; }
			if (batch && comp && rare("hugecap", 2, 1, 60)) { olens[i] = UINT32_MAX - pick("below", 2); probe("largest-capacity"); }
			wlen[i] = std::min<size_t>(olens[i], data[i].size() * 2 + 64);
			wout[i].resize(wlen[i] + 1);
			wret[i] = comp ? sw842_compress(in[i].data(), ilens[i], wout[i].data(), &wlen[i]) : sw842_decompress(in[i].data(), ilens[i], wout[i].data(), &wlen[i]);
		}
		// what the device's interface has no room for has to be refused
		size_t si = mi, so = mo; bool too_big = false;
		if (n && rare("oversized", 2, 1, 16)) {
			too_big = true;
			size_t i = pick("which", n), add = pick("by", 3);
			switch (batch ? pick("what", 4) : 1 + pick("what", 2)) {
			case 0: si = (((size_t)1 << 32) + n - 1) / n + 8 * add; break;
			case 1: olens[i] = ((size_t)1 << (32 + 8 * add)) + add; if (!batch) so = olens[i]; break;
			case 2: ilens[i] = ((size_t)1 << (32 + 8 * add)) - (add == 0) + add; if (!batch) si = ilens[i]; break;
			case 3: so = (((size_t)1 << 32) + n - 1) / n + 8 * add; break;
			}
			probe("oversized");
		}
		if (!batch) { si = ilens[0]; so = olens[0]; }
		know_asked = true;
		asked = {n, src, dst, n * si, n * so, ilens.data(), olens.data()};
		std::vector<int> rets(n + 1, 777);
		const std::vector<size_t> olens0 = olens;
		int r;
		{
			Lib l;
			if (batch) r = comp ? hw842_compress_chunked(n, rets.data(), src, si, ilens.data(), dst, so, olens.data()) : hw842_decompress_chunked(n, rets.data(), src, si, ilens.data(), dst, so, olens.data());
			else r = comp ? hw842_compress(src, ilens[0], dst, &olens[0]) : hw842_decompress(src, ilens[0], dst, &olens[0]);
		}
		check_app();
		bool depends = tl_faults || tl_alloc_failures + tl_tss_failures != a0 || tss_create_failed;
		bool must_fail = depends || misaligned || too_big || n > CRYPTODEV_COMP_MAX_CHUNKS;
		if (!faults_on && dev_present && !misaligned && !too_big && n <= CRYPTODEV_COMP_MAX_CHUNKS && r < 0 && !batch && wret[0] == 0 && !tss_create_failed)
			violate("not-recovered", "call fails with %d after the faults have stopped", r);
		if (batch) {
			// a failing chunk may or may not make the whole call fail; a failed request always does
			if (must_fail || r >= 0) judge("batch", r, must_fail, 0, live0);
			else {
				bool any = false;
				for (auto x : wret) if (x) any = true;
				judge("batch", r, any, r, live0);
				if (!any) violate("wrong-result", "batch returned %d although nothing failed", r);
			}
		} else judge(comp ? "compress" : "decompress", r, must_fail || wret[0] < 0, 0, live0);
		if (r == 0)
			for (size_t i = 0; i < n; i++) {
				if (ilens[i] == SIZE_MAX) {
					if (rets[i] != 777 || olens[i] != olens0[i]) violate("skipped-chunk-touched", "chunk %zu is marked to be skipped, but its results were changed", i);
					continue;
				}
				if (batch && rets[i] != wret[i]) violate("wrong-result", "chunk %zu: code %d instead of %d", i, rets[i], wret[i]);
				if (wret[i] == 0 && (olens[i] != wlen[i] || memcmp(dst + i * mo, wout[i].data(), wlen[i]))) violate("wrong-result", "chunk %zu: other data or length than the device produced", i);
			}
		if (r == 0) probe("succeeded");
		edge & 1 ? hugefree(src) : afree(src); edge & 2 ? hugefree(dst) : afree(dst);
	}
	if (tl_tid) event("thread-ends", tl_tid, live_of(tl_tid));
}

static void run_device(bool races)
{
	set_sched_params(30 + pick("memden", 300), 1, 1 + pick("syncden", 4));
	if (races) race_detection(true);
	static const uint16_t masks[] = {0, 0, 7, 15, 63, 4095, 0xffff};
	dev_alignmask = masks[pick("mask", 7)];
	if (rare("lowfd", 2, 1, 8)) { FD0 = 0; probe("descriptor-zero"); }
#ifndef CIOCGSESSINFO
	dev_alignmask = 0; // no way to ask
#endif
	faults_on = chance("faults", 2, 3);
	fault_den = 3 + pick("faultden", 20);
	if (faults_on && chance("allocfaults", 1, 3)) { alloc_num = 1; alloc_den = 2 + pick("allocden", 6); }
	inject_tss_set = faults_on && chance("tssfaults", 1, 4);
	inject_tss_create = faults_on && chance("tsscfaults", 1, 6);
	int waves = 1 + pick("waves", 3);
	sample("device mask %d faults %d waves %d", dev_alignmask, faults_on, waves);
	pthread_key_create(&app_key, app_free);
	lib_live_reset();
	for (int w = 0; w <= waves; w++) {
		bool last = w == waves; // healthy wave
		if (last) { faults_on = false; alloc_num = 0; inject_tss_set = inject_tss_create = false; dev_present = true; }
		else dev_present = !rare("absent", 2, 1, 8);
		if (!dev_present) fault("device-absent");
		int nt = 1 + pick("threads", 4);
		std::vector<std::thread> th;
		for (int t = 0; t < nt; t++) {
			int nc = 1 + pick("calls", 4);
			th.emplace_back([nc] { caller(nc); });
		}
		for (auto &t : th) t.join();
		for (size_t i = 0; i < files.size(); i++)
			if (files[i].open) violate("descriptor-leaked", "descriptor %zu of thread %d still open after the thread ended", i, files[i].tid);
		if (lib_live_count()) violate("leak", "%llu allocation(s) left after all threads ended: %s", (unsigned long long)lib_live_count(), lib_live_describe().c_str());
		if (nt > 1) nontrivial();
	}
	if (sessions_ever > 1) probe("several-sessions");
}
static void c17() { run_device(false); }
static void c08() { run_device(true); }

namespace sim {
const Scenario scenarios[] = {
	{"C17", c17, "data-race", nullptr},
	{"C08", c08, nullptr, "data-race"},
};
const int num_scenarios = sizeof(scenarios) / sizeof(scenarios[0]);
}
