// Replacement for the ThreadSanitizer runtime: every instrumented access is a
// possible preemption point, checked for freed memory and (when enabled) for
// happens-before races with deterministic vector clocks.
#include "sim.h"
#include "internal.h"
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" char __executable_start;

namespace sim {

static const int MAXT = 64;
bool hb_on;              // race reporting enabled
static bool uaf_on = true;

struct VC { uint32_t c[MAXT]; };
static VC vc[MAXT];

static void join_vc(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ---- sync objects
struct ObjVC { const void *key; VC v; };
static const size_t NOBJ = 8192;
static ObjVC *objs;
static ObjVC *obj_of(const void *p, bool create)
{
	size_t h = mix64((uint64_t)p) % NOBJ;
	for (size_t i = 0; i < NOBJ; i++) {
		ObjVC &o = objs[(h + i) % NOBJ];
		if (o.key == p) return &o;
		if (!o.key) { if (!create) return nullptr; o.key = p; return &o; }
	}
	return nullptr;
}

// ---- shadow memory
struct Cell { uint32_t clk; uint8_t tid, mask, flags, used; }; // flags: 1 write, 2 atomic, 4 freed
struct Gran { Cell c[4]; uint32_t pc[4]; };
struct Page { uint64_t key; Gran *g; };
static const size_t NPAGE = 1 << 16;
static Page *pages;
static char *arena, *arena_end;
static Page *last_page;

static Gran *shadow(uint64_t addr, bool create)
{
	uint64_t k = (addr >> 12) + 1;
	if (last_page && last_page->key == k) return &last_page->g[(addr & 4095) >> 3];
	size_t h = mix64(k) & (NPAGE - 1);
	for (;;) {
		Page &p = pages[h];
		if (p.key == k) { last_page = &p; return &p.g[(addr & 4095) >> 3]; }
		if (!p.key) {
			if (!create) return nullptr;
			size_t need = 512 * sizeof(Gran);
			if (arena + need > arena_end) {
				size_t sz = 64u << 20;
				arena = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (arena == MAP_FAILED) _exit(93);
				arena_end = arena + sz;
			}
			p.key = k; p.g = (Gran *)arena; arena += need;
			last_page = &p;
			return &p.g[(addr & 4095) >> 3];
		}
		h = (h + 1) & (NPAGE - 1);
	}
}

void hb_init()
{
	objs = (ObjVC *)mmap(nullptr, NOBJ * sizeof(ObjVC), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	pages = (Page *)mmap(nullptr, NPAGE * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (int i = 0; i < MAXT; i++) vc[i].c[i] = 1;
}
void hb_thread_create(int p, int c) { if (c >= MAXT) hb_on = false; if (c >= MAXT || p >= MAXT) return; join_vc(vc[c], vc[p]); vc[p].c[p]++; }
void hb_thread_join(int p, int c) { if (c >= MAXT || p >= MAXT) return; join_vc(vc[p], vc[c]); }
void hb_acquire(const void *o)
{
	if (tl_tid < 0 || tl_tid >= MAXT) return;
	ObjVC *v = obj_of(o, false);
	if (v) join_vc(vc[tl_tid], v->v);
}
void hb_release(const void *o)
{
	if (tl_tid < 0 || tl_tid >= MAXT) return;
	ObjVC *v = obj_of(o, true);
	if (v) join_vc(v->v, vc[tl_tid]);
	vc[tl_tid].c[tl_tid]++;
}
void hb_forget(const void *) {}
bool race_detection(bool on) { bool o = hb_on; hb_on = on; return o; }

static void clear_range(uint64_t a, size_t n, bool freed)
{
	if (tl_tid < 0 || !n) return;
	uint64_t e = a + n;
	for (uint64_t g = a & ~7ull; g < e; g += 8) {
		if ((g & 4095) == 0 || g == (a & ~7ull)) {
			// skip whole pages that were never touched
			while (!freed && !shadow(g, false)) {
				g = (g & ~4095ull) + 4096;
				if (g >= e) return;
			}
		}
		Gran *s = shadow(g, true);
		memset(s, 0, sizeof *s);
		if (freed) { s->c[0].used = 1; s->c[0].flags = 4; s->c[0].mask = 0xff; }
	}
}
void hb_clear(const void *p, size_t n) { if (pages) clear_range((uint64_t)p, n, false); }
void hb_freed(const void *p, size_t n) { if (pages) clear_range((uint64_t)p, n > 4096 ? 4096 : n, true); }
void race_clear(const void *p, size_t n) { hb_clear(p, n); }

static void where(uint64_t pc, char *buf, size_t n)
{
	snprintf(buf, n, "exe+0x%llx", (unsigned long long)(pc - (uint64_t)&__executable_start));
}

static void check_gran(uint64_t g, uint8_t mask, bool wr, bool atomic, uint64_t pc)
{
	Gran *s = shadow(g, hb_on);
	if (!s) return;
	int me = tl_tid;
	int slot = -1;
	for (int i = 0; i < 4; i++) {
		Cell &c = s->c[i];
		if (!c.used) { if (slot < 0) slot = i; continue; }
		if (!(c.mask & mask)) continue;
		if (c.flags & 4) {
			char w[64]; where(pc, w, sizeof w);
			violate("use-after-free", "thread %d %s freed memory (offset in page %llu) at %s", me, wr ? "writes" : "reads", (unsigned long long)(g & 4095), w);
		}
		if (!hb_on) continue;
		if (c.tid == me) { if (c.mask == mask && (c.flags & 1) == (unsigned)wr && !!(c.flags & 2) == atomic) slot = i; continue; }
		bool cw = c.flags & 1, ca = c.flags & 2;
		if ((cw || wr) && !(ca && atomic) && c.clk > vc[me].c[c.tid]) {
			char w1[64], w2[64];
			where(pc, w1, sizeof w1);
			where((uint64_t)&__executable_start + s->pc[i], w2, sizeof w2);
			violate("data-race", "%s%s by thread %d at %s is unordered with earlier %s%s by thread %d at %s",
				atomic ? "atomic " : "", wr ? "write" : "read", me, w1, ca ? "atomic " : "", cw ? "write" : "read", c.tid, w2);
		}
		// same or weaker ordered access: reuse the slot
		if (c.clk <= vc[me].c[c.tid] && wr && (c.mask & ~mask) == 0) slot = i;
	}
	if (!hb_on) return;
	if (slot < 0) slot = (g >> 3) & 3;
	Cell &c = s->c[slot];
	c.clk = vc[me].c[me]; c.tid = me; c.mask = mask; c.flags = (wr ? 1 : 0) | (atomic ? 2 : 0); c.used = 1;
	s->pc[slot] = (uint32_t)(pc - (uint64_t)&__executable_start);
}

static void access(const void *p, size_t n, bool wr, bool atomic, void *pc)
{
	if (tl_tid < 0) return;
	uint64_t a = (uint64_t)p, e = a + n;
	for (uint64_t g = a & ~7ull; g < e; g += 8) {
		uint8_t m = 0xff;
		if (g < a) m &= 0xff << (a - g);
		if (g + 8 > e) m &= 0xff >> (g + 8 - e);
		check_gran(g, m, wr, atomic, (uint64_t)pc);
	}
}
// Static data of the program that some instrumented code has written during
// this run: state every thread can see, so that an access to it is as likely a
// moment to be preempted at as a call on a lock.
extern "C" char __data_start, _end;
static const size_t NSTATIC = 1 << 16;
static uint8_t written_static[NSTATIC / 8];
static inline bool shared_static(const void *p, bool wr)
{
	if ((const char *)p < &__data_start || (const char *)p >= &_end) return false;
	size_t g = ((uint64_t)p >> 3) - ((uint64_t)&__data_start >> 3);
	if (g >= NSTATIC) return false;
	if (wr) written_static[g >> 3] |= 1 << (g & 7);
	return written_static[g >> 3] >> (g & 7) & 1;
}
static inline void acc(const void *p, size_t n, bool wr, void *pc)
{
	if (tl_tid < 0) return;
	if (shared_static(p, wr)) sync_point("static", 0);
	else sync_point_cheap();
	if (hb_on || uaf_on) access(p, n, wr, false, pc);
}
void set_uaf(bool on) { uaf_on = on; }

// watch hook: harness may observe instrumented accesses to an address range
static const char *watch_lo, *watch_hi;
static void (*watch_fn)(const void *, size_t, bool);
void watch(const void *lo, const void *hi, void (*fn)(const void *, size_t, bool)) { watch_lo = (const char *)lo; watch_hi = (const char *)hi; watch_fn = fn; }
static inline void watched(const void *p, size_t n, bool wr)
{
	if (watch_fn && (const char *)p < watch_hi && (const char *)p + n > watch_lo) watch_fn(p, n, wr);
}
static void acq_rel_before(void *p, int mo, bool is_store)
{
	(void)is_store;
	if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) hb_release(p);
}
static void acq_after(void *p, int mo)
{
	if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) hb_acquire(p);
}
} // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
	void __tsan_read##N(void *p) { acc(p, N, false, PC); watched(p, N, false); } \
	void __tsan_write##N(void *p) { acc(p, N, true, PC); watched(p, N, true); } \
	void __tsan_unaligned_read##N(void *p) { acc(p, N, false, PC); watched(p, N, false); } \
	void __tsan_unaligned_write##N(void *p) { acc(p, N, true, PC); watched(p, N, true); } \
	void __tsan_volatile_read##N(void *p) { acc(p, N, false, PC); } \
	void __tsan_volatile_write##N(void *p) { acc(p, N, true, PC); } \
	void __tsan_unaligned_volatile_read##N(void *p) { acc(p, N, false, PC); } \
	void __tsan_unaligned_volatile_write##N(void *p) { acc(p, N, true, PC); } \
	void __tsan_read_write##N(void *p) { acc(p, N, false, PC); acc(p, N, true, PC); watched(p, N, true); } \
	void __tsan_unaligned_read_write##N(void *p) { acc(p, N, false, PC); acc(p, N, true, PC); watched(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false, PC); watched(p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true, PC); watched(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) acc(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { acc(p, 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
	if (n) { acc(s, n, false, PC); watched(s, n, false); acc(d, n, true, PC); watched(d, n, true); }
	return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
	if (n) { acc(s, n, false, PC); watched(s, n, false); acc(d, n, true, PC); watched(d, n, true); }
	return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
	if (n) { acc(d, n, true, PC); watched(d, n, true); }
	return memset(d, c, n);
}

#define ATOMICS(N, T) \
	T __tsan_atomic##N##_load(const volatile T *p, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), false, true, PC); T v = *p; acq_after((void *)p, mo); return v; } \
	void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, true); *p = v; } \
	T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, false); acq_after((void *)p, mo); T o = *p; *p = v; return o; } \
	T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, false); acq_after((void *)p, mo); T o = *p; *p = o + v; return o; } \
	T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, false); acq_after((void *)p, mo); T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, false); acq_after((void *)p, mo); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, false); acq_after((void *)p, mo); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, false); acq_after((void *)p, mo); T o = *p; *p = o ^ v; return o; } \
	T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, false); acq_after((void *)p, mo); T o = *p; *p = ~(o & v); return o; } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int) { sync_point("atomic", 0); access((const void *)p, sizeof(T), true, true, PC); acq_rel_before((void *)p, mo, false); acq_after((void *)p, mo); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int f) { \
		if (tl_tid >= 0 && *p == *c && chance("casweak", 1, 20)) { fault("cas-weak-fails"); sync_point_cheap(); return 0; } \
		return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, f); } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int mo, int f) { T e = c; __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, f); return e; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sync_point("atomic", 0); static int f; hb_release(&f); hb_acquire(&f); }
void __tsan_atomic_signal_fence(int) {}
}
