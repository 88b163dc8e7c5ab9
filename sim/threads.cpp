// Simulated threads: real pthreads, exactly one of which runs at any time.
// All pthread synchronisation of the process is replaced by this file.
#include "sim.h"
#include "internal.h"
#include <errno.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>

namespace sim {

__thread int tl_tid = -1;
int syscall_clock(struct timespec *ts) { return syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts); }
int syscall_nanosleep(struct timespec *ts) { return syscall(SYS_nanosleep, ts, nullptr); }

#ifdef SIM_NOTHREADS
// Build without thread simulation (AddressSanitizer builds: single caller)
static uint64_t nsteps;
uint64_t steps() { return nsteps; }
int live_threads() { return 0; }
int threads_not_begun() { return 0; }
void threads_init() { sched_stream_init(); }
uint64_t sim_elapsed() { return nsteps * 1000; }
void sync_point(const char *, uint64_t) { nsteps++; }
void sync_point_cheap() { nsteps++; }
void yield_user() {}
void drain_others() {}
void set_step_budget(uint64_t, uint64_t) {}
void fair_mode() {}
void set_sched_params(uint32_t, uint32_t, uint32_t) {}
bool inject_thread_create;
void (*on_lib_join)();
#else

enum St { S_FREE, S_RUN, S_MUTEX, S_COND, S_JOIN, S_SLEEP, S_DONE, S_RW, S_SEM, S_GUARD };
static const char *st_name[] = {"free", "runnable", "blocked on mutex", "waiting on condition", "joining", "sleeping", "finished", "blocked on rwlock", "blocked on semaphore", "blocked on static init"};
static const int MAXT = 720, MAXKEY = 32;

struct Thread {
	St st;
	int go;               // futex word: baton
	void *obj;            // what it waits for
	void *mtx;            // mutex to re-acquire after a condition wait
	bool armed;           // a spurious wake-up may be delivered
	bool has_deadline, timed_out, signalled;
	uint64_t deadline;    // simulated ns
	int join_target;
	bool detached, joined, begun;
	int creator;
	void *(*fn)(void *);
	void *arg, *ret;
	pthread_t real;
	void *tsd[MAXKEY];
	uint32_t prio;
	int guard_depth, lib;
	struct { void (*f)(void *); void *a; } dtors[64];
	int ndtors;
};
static Thread T[MAXT];
static int nthreads;
static int cur;
static uint64_t step, next_point = UINT64_MAX;
static uint64_t sim_ns_extra;
static uint64_t fair_after = 400000, max_steps = 4000000;
static bool fair_forced;
static uint64_t fair_from = UINT64_MAX;
bool inject_thread_create;
void (*on_lib_join)();

// scheduling policy (seeded mode only)
static int policy;                 // 0 random, 1 PCT, 2 victim stall, 3 round robin
static uint32_t mem_den = 50, sync_num = 1, sync_den = 3;
static uint64_t raw_ctr;
static uint64_t pct_points[8];
static int victim; static uint64_t victim_until;
static uint32_t low_prio = 1000;

uint64_t steps() { return step; }
static uint64_t sim_now() { return 1700000000ull * 1000000000ull + step * 1000 + sim_ns_extra; }

uint64_t sim_elapsed() { return step * 1000 + sim_ns_extra; }
static void futex(int *w, int op, int v) // (a switch of threads must not be seen in errno)
{
	int e = errno;
	syscall(SYS_futex, w, op, v, nullptr, nullptr, 0);
	errno = e;
}
static void park(Thread &t)
{
	while (__atomic_load_n(&t.go, __ATOMIC_SEQ_CST) == 0) futex(&t.go, FUTEX_WAIT_PRIVATE, 0);
	__atomic_store_n(&t.go, 0, __ATOMIC_SEQ_CST);
}
static void unpark(Thread &t)
{
	__atomic_store_n(&t.go, 1, __ATOMIC_SEQ_CST);
	futex(&t.go, FUTEX_WAKE_PRIVATE, 1);
}

static uint64_t rraw() { return sched_raw(raw_ctr++); }
static uint64_t geometric(uint32_t mean)
{
	// integer-only, roughly exponential: uniform in [1, 2*mean] with an occasional long tail
	uint64_t r = rraw();
	uint64_t v = 1 + (r >> 8) % (2ull * mean);
	if ((r & 15) == 0) v *= 8;
	return v;
}
static bool fair() { return step >= fair_after || step >= fair_from; }
static void plan_next(bool after_point)
{
	uint64_t lim = max_steps;
	if (fair()) { uint64_t n = step + 40; next_point = n < lim ? n : lim; return; }
	uint64_t f = fair_after < fair_from ? fair_after : fair_from;
	if (f < lim) lim = f;
	if (replaying()) {
		uint64_t d = sched_next_deviation(step + 1);
		next_point = d < lim ? d : lim;
		return;
	}
	if (after_point || next_point <= step) {
		uint64_t n = UINT64_MAX;
		if (policy == 1) {
			for (auto p : pct_points) if (p > step && p < n) n = p;
		} else if (mem_den) {
			n = step + geometric(mem_den);
		}
		next_point = n < lim ? n : lim;
	}
}

static void describe(char *buf, size_t n)
{
	size_t l = 0;
	for (int i = 0; i < nthreads && l < n; i++)
		l += snprintf(buf + l, n - l, "t%d:%s%s ", i, st_name[T[i].st], i == cur ? "(current)" : "");
}

static bool runnable(int i)
{
	Thread &t = T[i];
	return t.st == S_RUN || (t.st == S_COND && t.armed);
}

static int mutex_owner(void *m) { return ((int *)m)[0] - 1; }

// Picks the next thread to run. forced: the current one cannot continue.
static int choose(bool forced, bool is_sync)
{
	int cand[MAXT], n = 0;
	for (int k = 0; k < nthreads; k++) {
		int i = (cur + k) % nthreads;
		if (runnable(i)) cand[n++] = i;
	}
	if (n == 0) {
		// advance simulated time to the next deadline
		int best = -1;
		for (int i = 0; i < nthreads; i++)
			if (T[i].has_deadline && (T[i].st == S_COND || T[i].st == S_SLEEP) && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
		if (best >= 0) {
			if (T[best].deadline > sim_now()) sim_ns_extra += T[best].deadline - sim_now();
			T[best].timed_out = true;
			T[best].st = S_RUN;
			return best;
		}
		char buf[1000];
		describe(buf, sizeof buf);
		violate("deadlock", "no thread can make progress: %s", buf);
	}
	if (n == 1) return cand[0];
	bool cur_ok = cand[0] == cur;
	if (fair()) return cand[cur_ok ? 1 : 0]; // round robin, not recorded
	uint64_t v = 0;
	if (replaying()) {
		v = sched_replay_value(step);
		if (v >= (uint64_t)n) v = n - 1;
	} else {
		switch (policy) {
		case 1: { // PCT
			bool drop = false;
			for (auto p : pct_points) if (p == step) drop = true;
			if (drop) T[cur].prio = low_prio--;
			int b = 0;
			for (int i = 1; i < n; i++) if (T[cand[i]].prio > T[cand[b]].prio) b = i;
			v = b;
			break;
		}
		case 2: { // one victim is held back while others can run
			if (step >= victim_until) { victim = rraw() % nthreads; victim_until = step + 1 + rraw() % 3000; }
			int m = 0, alt[MAXT];
			for (int i = 0; i < n; i++) if (cand[i] != victim) alt[m++] = i;
			if (!forced && is_sync && cur_ok && cur != victim && rraw() % sync_den >= sync_num) v = 0;
			else v = m ? alt[rraw() % m] : 0;
			break;
		}
		case 3: // round robin at synchronisation points
			v = cur_ok ? 1 : 0;
			break;
		default:
			if (!forced && is_sync && rraw() % sync_den >= sync_num) v = 0;
			else v = rraw() % n;
		}
	}
	sched_record(step, v);
	return cand[v];
}

static void switch_to(int next)
{
	if (next == cur) return;
	int me = cur;
	count_switch();
	cur = next;
	hash_in(0x5000 + next);
	unpark(T[next]);
	if (T[me].st != S_DONE) park(T[me]);
}

static void check_budget()
{
	if (step >= max_steps) {
		char buf[1000];
		describe(buf, sizeof buf);
		violate("no-progress", "step budget of %llu exhausted without completing (fair scheduling since step %llu): %s",
			(unsigned long long)max_steps, (unsigned long long)(fair_after < fair_from ? fair_after : fair_from), buf);
	}
}

static void resched(bool forced, bool is_sync)
{
	step++;
	check_budget();
	int n = choose(forced, is_sync);
	plan_next(!is_sync || forced);
	Thread &t = T[n];
	if (t.st == S_COND && t.armed) { // spurious wake-up
		t.armed = false; t.signalled = false; t.st = S_RUN; t.obj = nullptr;
		fault("spurious-wakeup");
	}
	switch_to(n);
}

void sync_point(const char *op, uint64_t obj)
{
	(void)op; (void)obj;
	if (tl_tid < 0) return;
	resched(false, true);
	sched_hash_in((uint64_t)cur);
}
__attribute__((noinline)) static void cheap_slow()
{
	step--; // resched counts it
	resched(false, false);
}
void sync_point_cheap()
{
	if (tl_tid < 0) return;
	if (++step < next_point) return;
	cheap_slow();
}
void yield_user() { if (tl_tid >= 0) { T[cur].prio = T[cur].prio > 1 ? T[cur].prio / 2 : 1; resched(false, true); } }
void drain_others()
{
	// give every other runnable thread the chance to run until all are blocked
	for (;;) {
		int me = cur; bool other = false;
		for (int i = 0; i < nthreads; i++) if (i != me && T[i].st == S_RUN) other = true;
		if (!other) return;
		// go to sleep for a moment: deterministic, wakes when nobody else can run
		T[me].st = S_SLEEP; T[me].has_deadline = true; T[me].deadline = sim_now() + 1; T[me].timed_out = false;
		resched(true, true);
		T[me].has_deadline = false;
	}
}
int live_threads()
{
	int n = 0;
	for (int i = 0; i < nthreads; i++) if (T[i].st != S_FREE && T[i].st != S_DONE) n++;
	return n;
}
int threads_not_begun()
{
	int n = 0;
	for (int i = 1; i < nthreads; i++) if (T[i].lib && T[i].creator == tl_tid && T[i].st != S_FREE && T[i].st != S_DONE && !T[i].begun) n++;
	return n;
}
void set_step_budget(uint64_t fa, uint64_t ms) { fair_after = fa; max_steps = ms; plan_next(true); }
void fair_mode() { if (fair_from == UINT64_MAX) { fair_from = step; plan_next(true); } }
void set_sched_params(uint32_t md, uint32_t sn, uint32_t sd) { mem_den = md; sync_num = sn; sync_den = sd; plan_next(true); }

void threads_init()
{
	sched_stream_init();
	hb_init();
	nthreads = 1; cur = 0; tl_tid = 0;
	T[0].st = S_RUN; T[0].real = 0; T[0].prio = 5000;
	if (!replaying()) {
		uint64_t r = rraw();
		static const uint32_t dens[] = {2, 5, 12, 40, 150, 600, 4000, 0};
		mem_den = dens[r % 8]; r >>= 8;
		static const uint32_t sds[][2] = {{1, 1}, {1, 2}, {1, 4}, {1, 10}, {1, 40}, {9, 10}};
		sync_num = sds[r % 6][0]; sync_den = sds[r % 6][1]; r >>= 8;
		static const int pol[] = {0, 0, 0, 0, 1, 1, 2, 3};
		policy = pol[r % 8]; r >>= 8;
		static const uint32_t horizon[] = {200, 1000, 4000, 20000};
		uint32_t h = horizon[r % 4]; r >>= 8;
		int npts = r % 6;
		for (int i = 0; i < 8; i++) pct_points[i] = i < npts ? 1 + rraw() % h : 0;
	}
	plan_next(true);
}

// ------------------------------------------------------------------ threads
static void run_tsd_dtors(int t);
static void *trampoline(void *p)
{
	int id = (int)(intptr_t)p;
	tl_tid = id;
	tl_lib = T[id].lib;
	park(T[id]);
	T[id].begun = true;
	T[id].ret = T[id].fn(T[id].arg);
	while (T[id].ndtors) { auto d = T[id].dtors[--T[id].ndtors]; d.f(d.a); }
	run_tsd_dtors(id);
	T[id].st = S_DONE;
	event("thread-end", id);
	for (int i = 0; i < nthreads; i++)
		if (T[i].st == S_JOIN && T[i].join_target == id) T[i].st = S_RUN;
	hb_release(&T[id]);
	resched(true, true); // never returns the baton
	for (;;) { int w = 0; futex(&w, FUTEX_WAIT_PRIVATE, 0); } // stay parked: no real exit path
	return nullptr;
}

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int tid_of(pthread_t p)
{
	for (int i = 0; i < nthreads; i++) if (T[i].st != S_FREE && T[i].real == p && i) return i;
	return -1;
}

// mutex: word 0 = owner+1, word 1 = recursion, glibc keeps the kind in word 4
static int mutex_lock(pthread_mutex_t *m, bool try_)
{
	int *w = (int *)m;
	int kind = w[4] & 3;
	if (tl_tid < 0) { w[0] = 1000; return 0; }
	sync_point("lock", 0);
	for (;;) {
		if (w[0] == 0) {
			w[0] = tl_tid + 1; w[1] = 1;
			hb_acquire(m);
			return 0;
		}
		if (w[0] == tl_tid + 1) {
			if (kind == PTHREAD_MUTEX_RECURSIVE) { w[1]++; return 0; }
			if (try_) return EBUSY;
			if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
		}
		if (try_) return EBUSY;
		T[cur].st = S_MUTEX; T[cur].obj = m;
		resched(true, true);
	}
}
static void wake_mutex(void *m)
{
	for (int i = 0; i < nthreads; i++)
		if (T[i].st == S_MUTEX && T[i].obj == m) { T[i].st = S_RUN; T[i].obj = nullptr; }
}
static int mutex_unlock(pthread_mutex_t *m, bool point)
{
	int *w = (int *)m;
	if (tl_tid < 0) { w[0] = 0; return 0; }
	if (w[0] != tl_tid + 1) violate("lock-misuse", "thread %d unlocks a mutex owned by %d", tl_tid, w[0] - 1);
	if (--w[1] > 0) return 0;
	hb_release(m);
	w[0] = 0;
	wake_mutex(m);
	if (point) sync_point("unlock", 0);
	return 0;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *dl, clockid_t)
{
	if (tl_tid < 0) return 0;
	sync_point("wait", 0); // between what was last looked at and becoming a waiter
	int me = cur;
	Thread &t = T[me];
	// (a wake-up may be spurious: POSIX allows it)
	t.armed = chance("spurious", 1, 12);
	t.signalled = false; t.timed_out = false;
	t.has_deadline = dl != nullptr;
	if (dl) t.deadline = (uint64_t)dl->tv_sec * 1000000000ull + dl->tv_nsec;
	mutex_unlock(m, false);
	t.st = S_COND; t.obj = c; t.mtx = m;
	if (dl && t.deadline <= sim_now()) { t.st = S_RUN; t.timed_out = true; }
	resched(true, true);
	bool to = t.timed_out && !t.signalled;
	t.has_deadline = false; t.armed = false; t.obj = nullptr;
	if (t.signalled) hb_acquire(c);
	// re-acquire
	int *w = (int *)m;
	while (w[0] != 0) {
		t.st = S_MUTEX; t.obj = m;
		resched(true, true);
	}
	w[0] = me + 1; w[1] = 1;
	hb_acquire(m);
	return to ? ETIMEDOUT : 0;
}
static void wake_cond(int i) { T[i].st = S_RUN; T[i].signalled = true; T[i].obj = nullptr; T[i].armed = false; }
static int cond_wake(pthread_cond_t *c, bool all)
{
	if (tl_tid < 0) return 0;
	sync_point("notify", all);
	int w[MAXT], n = 0;
	for (int i = 0; i < nthreads; i++) if (T[i].st == S_COND && T[i].obj == c) w[n++] = i;
	if (!n) return 0;
	if (all) for (int i = 0; i < n; i++) wake_cond(w[i]);
	else wake_cond(w[pick("notify", n)]);
	sync_point("notified", all);
	return 0;
}

// ------------------------------------------------------------------ keys
struct Key { bool used; void (*d)(void *); };
static Key keys[MAXKEY];
static int nkeys;
static void run_tsd_dtors(int t)
{
	for (int round = 0; round < 4; round++) {
		bool any = false;
		for (int k = 0; k < nkeys; k++) {
			void *v = T[t].tsd[k];
			if (v && keys[k].used && keys[k].d) { T[t].tsd[k] = nullptr; any = true; keys[k].d(v); }
		}
		if (!any) break;
	}
}
bool inject_tss_create, inject_tss_set, tss_create_failed;
__thread uint64_t tl_tss_failures;

static int key_create(unsigned *k, void (*d)(void *))
{
	sync_point("key_create", 0);
	if (tl_lib && inject_tss_create && chance("tsscreate", 1, 3)) { fault("tss-create-fails"); tss_create_failed = true; return EAGAIN; }
	if (nkeys >= MAXKEY) return EAGAIN;
	keys[nkeys].used = true; keys[nkeys].d = d;
	*k = nkeys++;
	return 0;
}
static int set_specific(unsigned k, const void *v)
{
	if (k >= (unsigned)nkeys) return EINVAL;
	if (tl_lib && v && inject_tss_set && chance("tssset", 1, 6)) { fault("tss-set-fails"); tl_tss_failures++; return ENOMEM; }
	T[tl_tid < 0 ? 0 : tl_tid].tsd[k] = (void *)v;
	return 0;
}
static void *get_specific(unsigned k) { return k < (unsigned)nkeys ? T[tl_tid < 0 ? 0 : tl_tid].tsd[k] : nullptr; }

// once: 0 = new, 1 = running, 2 = done
static int do_once(int *o, void (*fn)())
{
	for (;;) {
		int v = *o;
		if (v == 2) { hb_acquire(o); return 0; }
		if (v == 0) {
			sync_point("once", 0);
			if (*o != 0) continue;
			*o = 1;
			try { fn(); }
			catch (...) { // an initialiser that throws leaves the flag as new
				*o = 0;
				for (int i = 0; i < nthreads; i++) if (T[i].st == S_GUARD && T[i].obj == o) { T[i].st = S_RUN; T[i].obj = nullptr; }
				throw;
			}
			*o = 2;
			hb_release(o);
			for (int i = 0; i < nthreads; i++) if (T[i].st == S_GUARD && T[i].obj == o) { T[i].st = S_RUN; T[i].obj = nullptr; }
			sync_point("once-done", 0);
			return 0;
		}
		if (tl_tid < 0) return 0;
		T[cur].st = S_GUARD; T[cur].obj = o;
		resched(true, true);
	}
}
static void wake_guard(void *o)
{
	for (int i = 0; i < nthreads; i++) if (T[i].st == S_GUARD && T[i].obj == o) { T[i].st = S_RUN; T[i].obj = nullptr; }
}
#endif // SIM_NOTHREADS
} // namespace sim

#ifndef SIM_NOTHREADS
using namespace sim;
extern "C" {

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
	static create_t real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
	if (tl_tid < 0) { fprintf(stderr, "thread outside simulation\n"); _exit(95); }
	sync_point("create", 0);
	if (tl_lib && inject_thread_create && chance("thrcreate", 1, 8)) { fault("thread-create-EAGAIN"); return EAGAIN; }
	if (nthreads >= MAXT) return EAGAIN;
	int id = nthreads;
	Thread &t = T[id];
	memset((void *)&t, 0, sizeof t);
	t.fn = fn; t.arg = arg; t.st = S_RUN; t.creator = tl_tid; t.lib = tl_lib > 0; t.prio = 2000 + (uint32_t)(replaying() ? 0 : sched_raw(7777 + id) % 6000);
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 512 * 1024);
	int saved = tl_lib, r;
	tl_lib = 0;
	r = real(&t.real, &a, trampoline, (void *)(intptr_t)id);
	tl_lib = saved;
	pthread_attr_destroy(&a);
	if (r) { fprintf(stderr, "real pthread_create failed: %d\n", r); _exit(94); }
	nthreads++;
	hb_thread_create(tl_tid, id);
	if (attr) { int ds = 0; pthread_attr_getdetachstate(attr, &ds); t.detached = ds == PTHREAD_CREATE_DETACHED; }
	*out = t.real;
	event("thread-create", id);
	sync_point("created", id);
	return 0;
}
int pthread_join(pthread_t p, void **ret)
{
	int id = tid_of(p);
	if (id < 0) return ESRCH;
	if (T[id].joined || T[id].detached) violate("join-misuse", "thread %d joined twice or detached", id);
	if (on_lib_join && tl_lib) on_lib_join();
	sync_point("join", id);
	while (T[id].st != S_DONE) {
		T[cur].st = S_JOIN; T[cur].join_target = id;
		resched(true, true);
	}
	T[id].joined = true;
	hb_thread_join(tl_tid, id);
	if (ret) *ret = T[id].ret;
	return 0;
}
int pthread_detach(pthread_t p) { int id = tid_of(p); if (id < 0) return ESRCH; T[id].detached = true; return 0; }

int pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return mutex_lock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return mutex_unlock(m, true); }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	memset(m, 0, sizeof *m);
	if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((int *)m)[4] = k; }
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
	if (tl_tid >= 0 && ((int *)m)[0] != 0) violate("destroyed-in-use", "mutex destroyed while locked by thread %d", ((int *)m)[0] - 1);
	hb_forget(m);
	return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return mutex_lock(m, false); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return mutex_lock(m, false); }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c)
{
	if (tl_tid >= 0)
		for (int i = 0; i < nthreads; i++)
			if (T[i].st == S_COND && T[i].obj == c) violate("destroyed-in-use", "condition variable destroyed while thread %d waits on it", i);
	hb_forget(c);
	return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, nullptr, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait(c, m, t, CLOCK_REALTIME); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return cond_wait(c, m, t, k); }
int pthread_cond_signal(pthread_cond_t *c) { return cond_wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t *c) { return cond_wake(c, true); }

// reader-writer lock: word 0 = writer+1, word 1 = number of readers
static int rw_lock(pthread_rwlock_t *l, bool wr, bool try_)
{
	int *w = (int *)l;
	if (tl_tid < 0) return 0;
	sync_point("rwlock", wr);
	while (w[0] != 0 || (wr && w[1] != 0)) {
		if (try_) return EBUSY;
		T[cur].st = S_RW; T[cur].obj = l;
		resched(true, true);
	}
	if (wr) w[0] = tl_tid + 1; else w[1]++;
	hb_acquire(l);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_lock(l, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_lock(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_lock(l, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_lock(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
	int *w = (int *)l;
	if (tl_tid < 0) return 0;
	hb_release(l);
	if (w[0] == tl_tid + 1) w[0] = 0; else w[1]--;
	for (int i = 0; i < nthreads; i++) if (T[i].st == S_RW && T[i].obj == l) { T[i].st = S_RUN; T[i].obj = nullptr; }
	sync_point("rwunlock", 0);
	return 0;
}
int sem_init(sem_t *s, int, unsigned v) { memset(s, 0, sizeof *s); *(unsigned *)s = v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_post(sem_t *s)
{
	hb_release(s);
	(*(unsigned *)s)++;
	for (int i = 0; i < nthreads; i++) if (T[i].st == S_SEM && T[i].obj == s) { T[i].st = S_RUN; T[i].obj = nullptr; }
	sync_point("post", 0);
	return 0;
}
int sem_wait(sem_t *s)
{
	sync_point("sem", 0);
	while (*(unsigned *)s == 0) { T[cur].st = S_SEM; T[cur].obj = s; resched(true, true); }
	(*(unsigned *)s)--;
	hb_acquire(s);
	return 0;
}
int sem_trywait(sem_t *s)
{
	sync_point("sem", 0);
	if (*(unsigned *)s == 0) { errno = EAGAIN; return -1; }
	(*(unsigned *)s)--;
	hb_acquire(s);
	return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)(void)) { return do_once((int *)o, fn); }
void call_once(once_flag *o, void (*fn)(void)) { do_once((int *)o, fn); }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { return key_create(k, d); }
int pthread_key_delete(pthread_key_t k) { if (k < (unsigned)nkeys) keys[k].used = false; return 0; }
int pthread_setspecific(pthread_key_t k, const void *v) { return set_specific(k, v); }
void *pthread_getspecific(pthread_key_t k) { return get_specific(k); }
int tss_create(tss_t *k, tss_dtor_t d) { return key_create(k, d) ? thrd_error : thrd_success; }
void tss_delete(tss_t k) { pthread_key_delete(k); }
int tss_set(tss_t k, void *v) { return set_specific(k, v) ? thrd_error : thrd_success; }
void *tss_get(tss_t k) { return get_specific(k); }

// C11 threads: the same locks under other names
static int thrd_rc(int r) { return r == 0 ? thrd_success : r == EBUSY ? thrd_busy : r == ETIMEDOUT ? thrd_timedout : r == ENOMEM ? thrd_nomem : thrd_error; }
int mtx_init(mtx_t *m, int type)
{
	memset(m, 0, sizeof *m);
	((int *)m)[4] = type & mtx_recursive ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_NORMAL;
	return thrd_success;
}
int mtx_lock(mtx_t *m) { return thrd_rc(mutex_lock((pthread_mutex_t *)m, false)); }
int mtx_timedlock(mtx_t *m, const struct timespec *) { return thrd_rc(mutex_lock((pthread_mutex_t *)m, false)); }
int mtx_trylock(mtx_t *m) { return thrd_rc(mutex_lock((pthread_mutex_t *)m, true)); }
int mtx_unlock(mtx_t *m) { return thrd_rc(mutex_unlock((pthread_mutex_t *)m, true)); }
void mtx_destroy(mtx_t *m) { pthread_mutex_destroy((pthread_mutex_t *)m); }
int cnd_init(cnd_t *c) { memset(c, 0, sizeof *c); return thrd_success; }
int cnd_signal(cnd_t *c) { return thrd_rc(cond_wake((pthread_cond_t *)c, false)); }
int cnd_broadcast(cnd_t *c) { return thrd_rc(cond_wake((pthread_cond_t *)c, true)); }
int cnd_wait(cnd_t *c, mtx_t *m) { return thrd_rc(cond_wait((pthread_cond_t *)c, (pthread_mutex_t *)m, nullptr, 0)); }
int cnd_timedwait(cnd_t *c, mtx_t *m, const struct timespec *t) { return thrd_rc(cond_wait((pthread_cond_t *)c, (pthread_mutex_t *)m, t, CLOCK_REALTIME)); }
void cnd_destroy(cnd_t *c) { pthread_cond_destroy((pthread_cond_t *)c); }
struct ThrdStart { thrd_start_t fn; void *arg; };
static void *thrd_trampoline(void *p)
{
	ThrdStart s = *(ThrdStart *)p;
	{ NoFault g; delete (ThrdStart *)p; }
	return (void *)(intptr_t)s.fn(s.arg);
}
int thrd_create(thrd_t *out, thrd_start_t fn, void *arg)
{
	ThrdStart *s;
	{ NoFault g; s = new ThrdStart{fn, arg}; }
	int r = pthread_create((pthread_t *)out, nullptr, thrd_trampoline, s);
	if (r) { NoFault g; delete s; }
	return thrd_rc(r);
}
int thrd_join(thrd_t t, int *ret)
{
	void *v = nullptr;
	int r = pthread_join((pthread_t)t, &v);
	if (!r && ret) *ret = (int)(intptr_t)v;
	return thrd_rc(r);
}
int thrd_detach(thrd_t t) { return thrd_rc(pthread_detach((pthread_t)t)); }
void thrd_yield() { yield_user(); }

// spin locks: word 0 = owner+1
static int spin_lock(int *w, bool try_)
{
	if (tl_tid < 0) { *w = 1000; return 0; }
	sync_point("spin", 0);
	while (*w != 0) {
		if (try_) return EBUSY;
		T[cur].st = S_MUTEX; T[cur].obj = (void *)w;
		resched(true, true);
	}
	*w = tl_tid + 1;
	hb_acquire((void *)w);
	return 0;
}
int pthread_spin_init(pthread_spinlock_t *l, int) { *(int *)l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *l)
{
	if (tl_tid >= 0 && *(int *)l != 0) violate("destroyed-in-use", "spin lock destroyed while held by thread %d", *(int *)l - 1);
	hb_forget((void *)l);
	return 0;
}
int pthread_spin_lock(pthread_spinlock_t *l) { return spin_lock((int *)l, false); }
int pthread_spin_trylock(pthread_spinlock_t *l) { return spin_lock((int *)l, true); }
int pthread_spin_unlock(pthread_spinlock_t *l)
{
	int *w = (int *)l;
	if (tl_tid < 0) { *w = 0; return 0; }
	if (*w != tl_tid + 1) violate("lock-misuse", "thread %d unlocks a spin lock held by %d", tl_tid, *w - 1);
	hb_release((void *)w);
	*w = 0;
	wake_mutex(w);
	sync_point("spin-unlock", 0);
	return 0;
}

// barriers: word 0 = team, word 1 = arrived, word 2 = generation
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n)
{
	if (!n) return EINVAL;
	memset((void *)b, 0, sizeof *b);
	((unsigned *)b)[0] = n;
	return 0;
}
int pthread_barrier_destroy(pthread_barrier_t *b)
{
	if (tl_tid >= 0 && ((unsigned *)b)[1] != 0) violate("destroyed-in-use", "barrier destroyed while %u threads wait at it", ((unsigned *)b)[1]);
	hb_forget(b);
	return 0;
}
int pthread_barrier_wait(pthread_barrier_t *b)
{
	unsigned *w = (unsigned *)b;
	if (tl_tid < 0) return 0;
	sync_point("barrier", 0);
	hb_release(b);
	unsigned gen = w[2];
	if (++w[1] == w[0]) {
		w[1] = 0; w[2]++;
		hb_acquire(b);
		for (int i = 0; i < nthreads; i++) if (T[i].st == S_SEM && T[i].obj == b) { T[i].st = S_RUN; T[i].obj = nullptr; }
		sync_point("barrier-open", 0);
		return PTHREAD_BARRIER_SERIAL_THREAD;
	}
	while (w[2] == gen) { T[cur].st = S_SEM; T[cur].obj = b; resched(true, true); }
	hb_acquire(b);
	return 0;
}

int __cxa_thread_atexit_impl(void (*f)(void *), void *a, void *)
{
	Thread &t = T[tl_tid < 0 ? 0 : tl_tid];
	if (t.ndtors < 64) { t.dtors[t.ndtors].f = f; t.dtors[t.ndtors++].a = a; }
	return 0;
}

// function-local statics
int __cxa_guard_acquire(uint64_t *g)
{
	unsigned char *b = (unsigned char *)g;
	for (;;) {
		if (b[0]) { hb_acquire(g); return 0; }
		sync_point("guard", 0);
		if (b[0]) continue;
		if (!b[1]) { b[1] = 1; if (tl_tid >= 0) T[tl_tid].guard_depth++; return 1; }
		if (tl_tid < 0) return 1;
		T[cur].st = S_GUARD; T[cur].obj = g;
		resched(true, true);
	}
}
void __cxa_guard_release(uint64_t *g)
{
	unsigned char *b = (unsigned char *)g;
	hb_release(g);
	b[1] = 0; b[0] = 1;
	if (tl_tid >= 0) { T[tl_tid].guard_depth--; wake_guard(g); sync_point("guard-done", 0); }
}
void __cxa_guard_abort(uint64_t *g)
{
	unsigned char *b = (unsigned char *)g;
	b[1] = 0;
	if (tl_tid >= 0) { T[tl_tid].guard_depth--; wake_guard(g); }
}
int sim_in_static_init() { return tl_tid >= 0 ? T[tl_tid].guard_depth : 0; }

// ---------------------------------------------------------------- time
int clock_gettime(clockid_t, struct timespec *ts)
{
	uint64_t n = sim_now();
	ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull;
	return 0;
}
int gettimeofday(struct timeval *tv, void *) { uint64_t n = sim_now(); tv->tv_sec = n / 1000000000ull; tv->tv_usec = n / 1000 % 1000000; return 0; }
time_t time(time_t *t) { time_t v = sim_now() / 1000000000ull; if (t) *t = v; return v; }
static void sleep_ns(uint64_t ns)
{
	if (tl_tid < 0) return;
	Thread &t = T[cur];
	t.st = S_SLEEP; t.has_deadline = true; t.deadline = sim_now() + ns; t.timed_out = false;
	resched(true, true);
	t.has_deadline = false;
}
int nanosleep(const struct timespec *r, struct timespec *) { sleep_ns(r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
int clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *)
{
	uint64_t v = r->tv_sec * 1000000000ull + r->tv_nsec;
	if (flags & TIMER_ABSTIME) v = v > sim_now() ? v - sim_now() : 0;
	sleep_ns(v);
	return 0;
}
int usleep(useconds_t u) { sleep_ns(u * 1000ull); return 0; }
unsigned sleep(unsigned s) { sleep_ns(s * 1000000000ull); return 0; }
int sched_yield() { yield_user(); return 0; }
int thrd_sleep(const struct timespec *r, struct timespec *) { sleep_ns(r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }

} // extern "C"
#endif
