#pragma once
#include <stdint.h>
#include <time.h>
namespace sim {
uint64_t mix64(uint64_t);
void hash_in(uint64_t);
void sched_hash_in(uint64_t);
void count_switch();
void sched_stream_init();
uint64_t sched_next_deviation(uint64_t from);
uint64_t sched_replay_value(uint64_t step);
void sched_record(uint64_t step, uint64_t val);
uint64_t sched_raw(uint64_t k);
void threads_init();
uint64_t sim_elapsed();
int syscall_clock(struct timespec *);
int syscall_nanosleep(struct timespec *);

// happens-before bookkeeping (race.cpp)
void hb_init();
void hb_thread_create(int parent, int child);
void hb_thread_join(int parent, int child);
void hb_acquire(const void *obj);   // current thread acquires from obj's clock
void hb_release(const void *obj);   // obj's clock := join(obj, current)
void hb_forget(const void *obj);
void hb_clear(const void *p, size_t n);
extern bool hb_on;
}
