// Deterministic simulation core: every decision of a run comes from here.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- decisions
// A decision is identified by (stream, ordinal within the stream). In seeded
// mode its value is drawn from a counter-based PRNG; in replay mode it is
// looked up in the trace. 0 is the default ("no fault", "keep running the
// current thread", "simplest workload"): only non-zero decisions are recorded.
uint64_t pick(const char *stream, uint64_t n);             // uniform in [0,n)
bool chance(const char *stream, uint32_t num, uint32_t den); // true with num/den
// Like pick, but only chosen non-zero with probability num/den
uint64_t rare(const char *stream, uint64_t n, uint32_t num, uint32_t den);
// n raw bits (always drawn; recorded sparsely like everything else)
uint64_t bits64(const char *stream);
// Seed-derived value that is NOT a decision (used for bulk data: in replay
// it comes from the seed stored in the replay file)
uint64_t data64(uint64_t a, uint64_t b);
bool replaying();

// ---------------------------------------------------------------- outcome
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void end_run(); // run finished without violation
void event(const char *tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // only with --verbose
void fault(const char *kind);   // count: this fault kind fired
void probe(const char *name);   // count: this interesting condition was reached
void state(uint64_t h);         // abstract state reached (distinct count)
void nontrivial();              // this run exercised what its property is about
bool known_finding(const char *key); // true if key is listed (then the caller does not violate)
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // human-readable description of the run

// ---------------------------------------------------------------- threads
extern __thread int tl_tid;     // simulated thread id, -1: not simulated
void sync_point(const char *op, uint64_t obj); // explicit preemption point
void sync_point_cheap();                       // memory access
uint64_t steps();
int live_threads();
int threads_not_begun(); // the library's threads created by this one that have not executed anything yet
void yield_user();              // harness-side yield
void drain_others();            // let everybody else run until nobody else can
void set_step_budget(uint64_t fair_after, uint64_t max_steps);
extern void (*on_lib_join)();   // called when the library begins to wait for a thread's end
void fair_mode();               // from now on schedule round robin
int fail_thread_create_now();   // nonzero errno if the next pthread_create must fail
extern bool inject_thread_create;
void set_sched_params(uint32_t mem_den, uint32_t sync_num, uint32_t sync_den);
bool race_detection(bool on);
void race_clear(const void *p, size_t n);
extern uint64_t run_seed;

// ---------------------------------------------------------------- allocation
// Library allocations are those made while tl_lib > 0
extern __thread int tl_lib;
extern __thread int tl_nofault;
struct Lib { Lib() { tl_lib++; } ~Lib() { tl_lib--; } };
struct User { int s; User() : s(tl_lib) { tl_lib = 0; } ~User() { tl_lib = s; } };
struct NoFault { NoFault() { tl_nofault++; } ~NoFault() { tl_nofault--; } };
// alloc faults: each library allocation fails with probability num/den (stream "alloc")
extern int fresh_contents;        // single caller harnesses: what fresh memory holds (alloc.cpp)
extern uint32_t alloc_num, alloc_den;
extern uint64_t alloc_fail_nth;   // 0: off; otherwise exactly the nth library allocation fails
extern bool alloc_faults_stopped;
uint64_t lib_alloc_count();
uint64_t lib_live_count();
uint64_t lib_live_bytes();
void lib_live_reset();
uint64_t alloc_failures();
extern __thread uint64_t tl_alloc_failures;  // of the current thread
extern __thread uint64_t tl_tss_failures;    // injected tss_set failures of the current thread
extern bool tss_create_failed;               // a key creation was made to fail
std::string lib_live_describe();
bool lib_is_live(const void *p);
// observe instrumented accesses to [lo,hi)
void watch(const void *lo, const void *hi, void (*fn)(const void *, size_t, bool));
extern bool inject_tss_create, inject_tss_set;
uint64_t mix64(uint64_t);

// ---------------------------------------------------------------- harness
struct Scenario {
	const char *name;      // "C01"
	void (*run)();
	// comma separated class prefixes that say nothing about this property ('*': all but `only`)
	const char *ignore;
	const char *only;
};
extern const Scenario scenarios[];
extern const int num_scenarios;
int main(int argc, char **argv);

} // namespace sim
