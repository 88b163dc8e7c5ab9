// Streams between the processes of a dataflow design: bounded FIFOs, blocking at both ends
#pragma once
#include <pthread.h>
#include <deque>
#include <utility>
void hls_wait_note(bool reading);
namespace hls {
template <class T> class stream {
	std::deque<T> q;
	mutable pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
	pthread_cond_t c = PTHREAD_COND_INITIALIZER;
public:
	size_t depth = 2, taken = 0;
	stream() {}
	stream(const char *) {}
	stream(const stream &) = delete;
	T read() {
		pthread_mutex_lock(&m);
		while (q.empty()) { hls_wait_note(true); pthread_cond_wait(&c, &m); }
		T x = q.front(); q.pop_front(); taken++;
		pthread_cond_broadcast(&c);
		pthread_mutex_unlock(&m);
		return x;
	}
	void read(T &x) { x = read(); }
	bool read_nb(T &x) {
		pthread_mutex_lock(&m);
		bool r = !q.empty();
		if (r) { x = q.front(); q.pop_front(); taken++; pthread_cond_broadcast(&c); }
		pthread_mutex_unlock(&m);
		return r;
	}
	void write(const T &x) {
		pthread_mutex_lock(&m);
		while (q.size() >= depth) { hls_wait_note(false); pthread_cond_wait(&c, &m); }
		q.push_back(x);
		pthread_cond_broadcast(&c);
		pthread_mutex_unlock(&m);
	}
	bool empty() const { pthread_mutex_lock(&m); bool r = q.empty(); pthread_mutex_unlock(&m); return r; }
	bool full() const { pthread_mutex_lock(&m); bool r = q.size() >= depth; pthread_mutex_unlock(&m); return r; }
	size_t size() const { pthread_mutex_lock(&m); size_t r = q.size(); pthread_mutex_unlock(&m); return r; }
	void operator>>(T &x) { x = read(); }
	void operator<<(const T &x) { write(x); }
};
}
