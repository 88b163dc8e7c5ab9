// Allocation seam: counts, tracks and fails allocations made by library code.
#include "sim.h"
#include "internal.h"
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace sim {
__thread int tl_lib, tl_nofault;
uint32_t alloc_num, alloc_den = 1;
uint64_t alloc_fail_nth;
bool alloc_faults_stopped;
static uint64_t nalloc, nfail;
struct Live { void *p; size_t n; uint64_t seq; };
static const size_t NLIVE = 1 << 17;
static Live live[NLIVE];
static uint64_t nlive, live_bytes;
void hb_freed(const void *p, size_t n);
} // namespace sim
using namespace sim;

#ifdef SIM_NOTHREADS
extern "C" void *__real_malloc(size_t);
extern "C" void *__real_calloc(size_t, size_t);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void *__real_aligned_alloc(size_t, size_t);
extern "C" void __real_free(void *);
#define RMALLOC __real_malloc
#define RCALLOC __real_calloc
#define RREALLOC __real_realloc
#define RALIGNED __real_aligned_alloc
#define RFREE __real_free
#define NAME(x) __wrap_##x
extern "C" int sim_in_static_init() { return 0; }
namespace sim {
void hb_freed(const void *, size_t) {} void hb_clear(const void *, size_t) {}
// what fresh memory holds: 0 whatever the allocator left there, 1-255 that byte, 256 noise, 257 what the last freed block of the size held
int fresh_contents;
static struct { size_t n; char *copy; } freed[8];
static void keep_freed(void *p, size_t n)
{
	if (n < 64) return;
	size_t k = mix64(n) % 8;
	if (freed[k].n != n) { __real_free(freed[k].copy); freed[k].copy = (char *)__real_malloc(n); freed[k].n = n; }
	memcpy(freed[k].copy, p, n);
}
static void fill_fresh(void *p, size_t n)
{
	if (!p || !tl_lib || !fresh_contents) return;
	size_t k = mix64(n) % 8;
	if (fresh_contents < 256) memset(p, fresh_contents, n);
	else if (fresh_contents == 257 && freed[k].n == n) memcpy(p, freed[k].copy, n);
	else { uint64_t x = mix64(n + fresh_contents); for (size_t i = 0; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; uint64_t y = x ^ x >> 29; memcpy((char *)p + i, &y, 8); } }
}
}
#else
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);
extern "C" size_t malloc_usable_size(void *);
// Simulated threads allocate from an arena at a fixed address whose state
// starts out empty in every run: addresses (and everything that depends on
// them) are a function of the run alone.
#include <sys/mman.h>
#include <unistd.h>
namespace {
char *const ABASE = (char *)0x200000000000ull;
const size_t ASIZE = 1ull << 36;
char *acur;
struct Hdr { uint64_t cap; uint64_t cls; };
struct Free { Free *next; };
Free *freelist[64 * 4];
inline int class_of(size_t n, size_t *cap)
{
	// four classes per power of two
	if (n < 32) n = 32;
	int b = 63 - __builtin_clzll(n);
	size_t q = (size_t)1 << (b - 2), r = (n + q - 1) / q * q;
	int k = b * 4 + (int)((r - ((size_t)1 << b)) / q);
	*cap = r;
	return k;
}
inline bool in_arena(void *p) { return (char *)p >= ABASE && (char *)p < ABASE + ASIZE; }
void *a_alloc(size_t n, size_t al)
{
	if (n > (1ull << 34)) return nullptr;
	if (al < 16) al = 16;
	size_t cap; int k = class_of(n, &cap);
	Free **f = &freelist[k];
	for (int i = 0; *f && i < 16; i++, f = &(*f)->next)
		if (((uintptr_t)*f & (al - 1)) == 0) { Free *r = *f; *f = r->next; return r; }
	if (!acur) {
		if (mmap(ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ABASE) _exit(92);
		acur = ABASE;
	}
	uintptr_t p = ((uintptr_t)acur + sizeof(Hdr) + al - 1) & ~(uintptr_t)(al - 1);
	if ((char *)p + cap > ABASE + ASIZE) return nullptr;
	Hdr *h = (Hdr *)p - 1;
	h->cap = cap; h->cls = k;
	acur = (char *)p + cap;
	return (void *)p;
}
void a_free(void *p) { Hdr *h = (Hdr *)p - 1; Free *f = (Free *)p; f->next = freelist[h->cls]; freelist[h->cls] = f; }
}
static void *RMALLOC(size_t n) { return sim::tl_tid >= 0 ? a_alloc(n, 16) : __libc_malloc(n); }
static void *RCALLOC(size_t a, size_t b)
{
	if (sim::tl_tid < 0) return __libc_calloc(a, b);
	size_t t;
	if (__builtin_mul_overflow(a, b, &t)) return nullptr;
	void *p = a_alloc(t, 16);
	if (p) memset(p, 0, t);
	return p;
}
static void *RALIGNED(size_t al, size_t n) { return sim::tl_tid >= 0 ? a_alloc(n, al) : __libc_memalign(al, n); }
static void RFREE(void *p) { if (in_arena(p)) a_free(p); else __libc_free(p); }
static void *RREALLOC(void *o, size_t n)
{
	if (sim::tl_tid < 0 && !in_arena(o)) return __libc_realloc(o, n);
	void *p = RMALLOC(n);
	if (!p) return nullptr;
	if (o) {
		size_t c = in_arena(o) ? ((Hdr *)o - 1)->cap : malloc_usable_size(o);
		memcpy(p, o, c < n ? c : n);
		RFREE(o);
	}
	return p;
}
#define NAME(x) x
extern "C" int sim_in_static_init();
#endif

namespace sim { __thread uint64_t tl_alloc_failures; }
static bool should_fail(size_t n)
{
	if (!tl_lib) return false;
#ifndef SIM_NOTHREADS
	if (tl_tid < 0) return false;
#endif
	nalloc++;
	(void)n;
	if (tl_nofault || alloc_faults_stopped || sim_in_static_init()) return false;
	bool f = false;
	if (alloc_fail_nth && nalloc == alloc_fail_nth) f = true;
	if (alloc_num && chance("alloc", alloc_num, alloc_den)) f = true;
	if (f) { nfail++; tl_alloc_failures++; fault("alloc-fails"); errno = ENOMEM; }
	return f;
}
// open addressing with backward-shift deletion
static inline size_t slot_of(void *p) { return mix64((uint64_t)p) & (NLIVE - 1); }
static void live_add(void *p, size_t n)
{
	if (nlive > NLIVE / 2) { fprintf(stderr, "too many live allocations\n"); abort(); }
	size_t i = slot_of(p);
	while (live[i].p) i = (i + 1) & (NLIVE - 1);
	live[i].p = p; live[i].n = n; live[i].seq = nalloc;
	nlive++; live_bytes += n;
}
static Live *find(void *p)
{
	for (size_t i = slot_of(p); live[i].p; i = (i + 1) & (NLIVE - 1))
		if (live[i].p == p) return &live[i];
	return nullptr;
}
static size_t untrack(void *p)
{
	if (!nlive) return 0;
	Live *l = find(p);
	if (!l) return 0;
	size_t n = l->n, i = l - live;
	nlive--; live_bytes -= n;
	for (size_t j = i;;) {
		j = (j + 1) & (NLIVE - 1);
		if (!live[j].p) break;
		size_t k = slot_of(live[j].p);
		if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
		live[i] = live[j];
		i = j;
	}
	live[i].p = nullptr;
	return n;
}
static void track(void *p, size_t n)
{
	if (!p) return;
#ifndef SIM_NOTHREADS
	if (tl_tid >= 0) {
		hb_clear(p, n);
		// contents of fresh memory are arbitrary: make them so, deterministically
		if (tl_lib) {
			uint64_t x = mix64(nalloc * 77 + 5);
			size_t m = n > 262144 ? 4096 : n;
			memset(p, (int)(x & 0xff) | 1, m);
		}
	}
#endif
	if (!tl_lib || sim_in_static_init()) return;
	live_add(p, n);
}
namespace sim {
uint64_t lib_alloc_count() { return nalloc; }
uint64_t lib_live_count() { return nlive; }
uint64_t lib_live_bytes() { return live_bytes; }
uint64_t alloc_failures() { return nfail; }
bool lib_is_live(const void *p) { return nlive && find((void *)p) != nullptr; }
void lib_live_reset() { memset(live, 0, sizeof live); nlive = 0; live_bytes = 0; }
std::string lib_live_describe()
{
	std::string s;
	int k = 0;
	for (size_t i = 0; i < NLIVE && k < 8; i++)
		if (live[i].p) { s += "#" + std::to_string(live[i].seq) + ":" + std::to_string(live[i].n) + "B "; k++; }
	return s;
}
}

extern "C" {
void *NAME(malloc)(size_t n)
{
	if (should_fail(n)) return nullptr;
	void *p = RMALLOC(n);
#ifdef SIM_NOTHREADS
	fill_fresh(p, n);
#endif
	track(p, n);
	return p;
}
void *NAME(calloc)(size_t a, size_t b)
{
	if (should_fail(a * b)) return nullptr;
	void *p = RCALLOC(a, b);
	track(p, a * b);
#ifndef SIM_NOTHREADS
	if (p && tl_tid >= 0) memset(p, 0, a * b);
#endif
	return p;
}
void *NAME(realloc)(void *o, size_t n)
{
	if (should_fail(n)) return nullptr;
	size_t old = 0;
	Live *l = nlive ? find(o) : nullptr;
	if (l) old = l->n;
	(void)old;
	if (o) untrack(o);
	void *p = RREALLOC(o, n);
	if (p && tl_lib && !sim_in_static_init()) live_add(p, n);
	if (p) hb_clear(p, n);
	return p;
}
void *NAME(aligned_alloc)(size_t al, size_t n) { if (should_fail(n)) return nullptr; void *p = RALIGNED(al, n); track(p, n); return p; }
#ifndef SIM_NOTHREADS
void *memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { if (should_fail(n)) return ENOMEM; *o = RALIGNED(al, n); track(*o, n); return *o ? 0 : ENOMEM; }
#endif
void NAME(free)(void *p)
{
	if (!p) return;
	size_t n = untrack(p);
	if (n) {
		hb_freed(p, n);
#ifdef SIM_NOTHREADS
		keep_freed(p, n);
#endif
#ifndef SIM_NOTHREADS
		if (tl_tid >= 0) {
			if (n <= 4096) { memset(p, 0xdd, n); return; } // quarantined until the run ends
			memset(p, 0xdd, 4096);
		}
#endif
	}
	RFREE(p);
}
}
