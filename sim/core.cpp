// Decisions, results, fork-per-run driver, minimiser and replay.
#include "sim.h"
#include "internal.h"
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ------------------------------------------------------------------ result
static const int MAXK = 96;
struct Counter { char name[40]; uint64_t n; };
struct TraceEnt { char stream[24]; uint64_t ctr, val; };
static const size_t MAXTRACE = 60000;
struct Result {
	int status;              // 0 running/unknown, 1 ok, 2 violation
	char cls[64];
	char msg[1500];
	char sample[600];
	uint64_t hash, sched_hash, steps, switches, state_hash, sim_ns;
	bool nontrivial;
	int nfaults, nprobes, nknown;
	Counter faults[MAXK], probes[MAXK], known[16];
	uint64_t nstates; uint64_t states[64];
	uint64_t ntrace; bool trace_overflow;
	TraceEnt trace[MAXTRACE];
};
static Result *R;

uint64_t run_seed;
static bool replay_mode;
static bool verbose;
static std::map<std::string, std::vector<std::pair<uint64_t, uint64_t>>> replay_tab;
static std::set<std::string> known_keys;
static const char *cur_scenario = "?";

bool replaying() { return replay_mode; }

static inline uint64_t mix(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
uint64_t mix64(uint64_t x) { return mix(x); }
static uint64_t hstr(const char *s)
{
	uint64_t h = 1469598103934665603ull;
	for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
	return h;
}

// ------------------------------------------------------------------ streams
struct Stream {
	char name[24];
	uint64_t h, ctr;
	const std::vector<std::pair<uint64_t, uint64_t>> *rep;
	size_t pos;
};
static Stream streams[256];
static int nstreams;

static Stream *get_stream(const char *name)
{
	for (int i = 0; i < nstreams; i++)
		if (!strcmp(streams[i].name, name)) return &streams[i];
	if (nstreams == 256) { fprintf(stderr, "too many streams\n"); _exit(99); }
	Stream *s = &streams[nstreams++];
	memset(s, 0, sizeof(*s));
	snprintf(s->name, sizeof(s->name), "%s", name);
	s->h = hstr(name);
	if (replay_mode) {
		auto it = replay_tab.find(name);
		s->rep = it == replay_tab.end() ? nullptr : &it->second;
	}
	return s;
}
static uint64_t stream_raw(Stream *s) { return mix(mix(run_seed ^ s->h) + s->ctr * 0x9e3779b97f4a7c15ull); }
static void record(Stream *s, uint64_t ctr, uint64_t val)
{
	if (!val) return;
	if (R->ntrace >= MAXTRACE) { R->trace_overflow = true; return; }
	TraceEnt &e = R->trace[R->ntrace++];
	memcpy(e.stream, s->name, sizeof(e.stream));
	e.ctr = ctr; e.val = val;
}
static uint64_t replay_val(Stream *s)
{
	if (!s->rep) return 0;
	while (s->pos < s->rep->size() && (*s->rep)[s->pos].first < s->ctr) s->pos++;
	if (s->pos < s->rep->size() && (*s->rep)[s->pos].first == s->ctr) return (*s->rep)[s->pos].second;
	return 0;
}
void hash_in(uint64_t x) { R->hash = mix(R->hash ^ x); }
static uint64_t finish(Stream *s, uint64_t v)
{
	record(s, s->ctr, v);
	s->ctr++;
	R->hash = mix(R->hash ^ s->h ^ v);
	return v;
}
uint64_t pick(const char *stream, uint64_t n)
{
	Stream *s = get_stream(stream);
	uint64_t v;
	if (replay_mode) { v = replay_val(s); if (n && v >= n) v = n - 1; if (!n) v = 0; }
	else v = n > 1 ? stream_raw(s) % n : 0;
	return finish(s, v);
}
uint64_t rare(const char *stream, uint64_t n, uint32_t num, uint32_t den)
{
	Stream *s = get_stream(stream);
	uint64_t v = 0;
	if (replay_mode) { v = replay_val(s); if (n && v >= n) v = n - 1; if (!n) v = 0; }
	else if (n > 1) {
		uint64_t r = stream_raw(s);
		if ((r >> 32) % den < num) v = 1 + (mix(r) % (n - 1));
	}
	return finish(s, v);
}
bool chance(const char *stream, uint32_t num, uint32_t den)
{
	return rare(stream, 2, num, den) != 0;
}
uint64_t bits64(const char *stream)
{
	Stream *s = get_stream(stream);
	return finish(s, replay_mode ? replay_val(s) : stream_raw(s));
}
uint64_t data64(uint64_t a, uint64_t b) { return mix(mix(run_seed ^ 0xda7aull) + mix(a * 0x100000001b3ull ^ mix(b))); }

// Schedule decisions: ordinal = step number, so most steps cost nothing.
static Stream *sched_stream;
void sched_stream_init()
{
	sched_stream = get_stream("sched");
}
// replay: next step >= from with a recorded deviation (or UINT64_MAX)
uint64_t sched_next_deviation(uint64_t from)
{
	Stream *s = sched_stream;
	if (!s->rep) return UINT64_MAX;
	while (s->pos < s->rep->size() && (*s->rep)[s->pos].first < from) s->pos++;
	return s->pos < s->rep->size() ? (*s->rep)[s->pos].first : UINT64_MAX;
}
uint64_t sched_replay_value(uint64_t step)
{
	Stream *s = sched_stream;
	if (!s->rep) return 0;
	while (s->pos < s->rep->size() && (*s->rep)[s->pos].first < step) s->pos++;
	if (s->pos < s->rep->size() && (*s->rep)[s->pos].first == step) return (*s->rep)[s->pos].second;
	return 0;
}
void sched_record(uint64_t step, uint64_t val) { record(sched_stream, step, val); }
uint64_t sched_raw(uint64_t k) { return mix(mix(run_seed ^ 0x5c4edull) + k * 0x9e3779b97f4a7c15ull); }

// ------------------------------------------------------------------ outcome
static void count(Counter *c, int *n, const char *name, int max)
{
	for (int i = 0; i < *n; i++)
		if (!strcmp(c[i].name, name)) { c[i].n++; return; }
	if (*n == max) return;
	snprintf(c[*n].name, sizeof(c[*n].name), "%s", name);
	c[(*n)++].n = 1;
}
void fault(const char *kind) { count(R->faults, &R->nfaults, kind, MAXK); hash_in(hstr(kind)); logf("fault %s", kind); }
void probe(const char *name) { count(R->probes, &R->nprobes, name, MAXK); }
void nontrivial() { R->nontrivial = true; }
bool known_finding(const char *key)
{
	if (!known_keys.count(std::string(cur_scenario) + " " + key)) return false;
	count(R->known, &R->nknown, key, 16);
	return true;
}
void state(uint64_t h)
{
	R->state_hash = mix(R->state_hash ^ h);
	if (R->nstates < 64) R->states[R->nstates++] = h;
}
void sched_hash_in(uint64_t x) { R->sched_hash = mix(R->sched_hash ^ x); }
void count_switch() { R->switches++; }
void sample(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt);
	size_t l = strlen(R->sample);
	if (l < sizeof(R->sample) - 2) {
		if (l) R->sample[l++] = ' ';
		vsnprintf(R->sample + l, sizeof(R->sample) - l, fmt, ap);
	}
	va_end(ap);
}
void logf(const char *fmt, ...)
{
	if (!verbose) return;
	char buf[600];
	va_list ap; va_start(ap, fmt);
	int n = snprintf(buf, sizeof buf, "[%8" PRIu64 " t%d] ", steps(), tl_tid);
	n += vsnprintf(buf + n, sizeof(buf) - n - 2, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof(buf) - 2) n = sizeof(buf) - 2;
	buf[n++] = '\n';
	(void)!write(2, buf, n);
}
void event(const char *tag, uint64_t a, uint64_t b, uint64_t c)
{
	hash_in(hstr(tag) ^ mix(a) ^ mix(b * 3 + 1) ^ mix(c * 7 + 5));
	if (verbose) logf("event %s %" PRIu64 " %" PRIu64 " %" PRIu64, tag, a, b, c);
}
static const Scenario *scen;
static bool prefix_in(const char *list, const char *cls)
{
	if (!list) return false;
	std::string l(list);
	size_t p = 0;
	while (p <= l.size()) {
		size_t q = l.find(',', p);
		if (q == std::string::npos) q = l.size();
		std::string e = l.substr(p, q - p);
		if (!e.empty() && !strncmp(e.c_str(), cls, e.size())) return true;
		p = q + 1;
	}
	return false;
}
// Does a violation of this class refute the property being checked?
static bool relevant(const char *cls)
{
	if (scen->only) return prefix_in(scen->only, cls);
	return !prefix_in(scen->ignore, cls);
}
void violate(const char *cls, const char *fmt, ...)
{
	if (!relevant(cls)) {
		char b[40]; snprintf(b, sizeof b, "other:%.30s", cls);
		logf("(not this property) %s: %s", cls, fmt);
		probe(b);
		end_run();
	}
	if (R->status != 2) {
		R->status = 2;
		snprintf(R->cls, sizeof(R->cls), "%s", cls);
		va_list ap; va_start(ap, fmt);
		vsnprintf(R->msg, sizeof(R->msg), fmt, ap);
		va_end(ap);
		R->steps = steps(); R->sim_ns = sim_elapsed();
		logf("VIOLATION %s: %s", R->cls, R->msg);
	}
	_exit(3);
}
void end_run()
{
	R->status = 1;
	R->steps = steps(); R->sim_ns = sim_elapsed();
	_exit(0);
}

// ------------------------------------------------------------------ driver
struct Opts {
	std::string prop, out, replay_file, known_file;
	uint64_t seed = 1, from = 0, runs = 100, stride = 1;
	double max_s = 1e9;
	unsigned timeout_s = 60;
	uint64_t det_every = 0;
	double min_s = 45;
};
static Opts O;

static double now()
{
	struct timespec ts; // real clock, only in the parent
	syscall_clock(&ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static void reset_result() { memset(R, 0, offsetof(Result, trace)); }

extern "C" void sim_crash_stack(char *buf, size_t n);

static int errfd = -1;
static std::string child_stderr;

// Runs one execution in a forked child; result in *R
static void run_once(uint64_t seed, bool rep)
{
	reset_result();
	if (ftruncate(errfd, 0)) {}
	lseek(errfd, 0, SEEK_SET);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(98); }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		run_seed = seed;
		replay_mode = rep;
		struct rlimit rl = {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
		// CPU backstop against livelocks outside the simulator's view
		rl.rlim_cur = O.timeout_s; rl.rlim_max = O.timeout_s + 5;
		setrlimit(RLIMIT_CPU, &rl);
		if (!verbose) { dup2(errfd, 2); dup2(errfd, 1); }
		threads_init();
		scen->run();
		end_run();
	}
	int st;
	// Wall backstop: a child blocked outside the simulator's control
	double deadline = now() + O.timeout_s * 3;
	bool hung = false;
	for (int spin = 0;;) {
		pid_t r = waitpid(pid, &st, spin > 2000 ? WNOHANG : WNOHANG);
		if (r == pid) break;
		if (now() > deadline) { hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
		struct timespec ts = {0, spin < 200 ? 20000 : 500000};
		spin++;
		syscall_nanosleep(&ts);
	}
	child_stderr.clear();
	if (R->status == 2) return;
	if (R->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
	char buf[4000];
	ssize_t n = pread(errfd, buf, sizeof(buf) - 1, 0);
	if (n < 0) n = 0;
	buf[n] = 0;
	child_stderr = buf;
	const char *asan = strstr(buf, "ERROR: AddressSanitizer");
	const char *ubsan = strstr(buf, "runtime error:");
	const char *asrt = strstr(buf, "Assertion `");
	int oldstatus = R->status;
	R->status = 2;
	if (hung) {
		snprintf(R->cls, sizeof R->cls, "hang-outside-simulation");
		snprintf(R->msg, sizeof R->msg, "child hung in real time");
	} else if (asan) {
		const char *k = asan + strlen("ERROR: AddressSanitizer: ");
		int l = strcspn(k, " \n");
		snprintf(R->cls, sizeof R->cls, "asan-%.*s", l > 50 ? 50 : l, k);
		snprintf(R->msg, sizeof R->msg, "%.1400s", asan);
	} else if (ubsan) {
		snprintf(R->cls, sizeof R->cls, "ubsan");
		snprintf(R->msg, sizeof R->msg, "%.1400s", buf);
	} else if (WIFSIGNALED(st)) {
		int sig = WTERMSIG(st);
		if (sig == SIGXCPU || (sig == SIGKILL && oldstatus == 0)) snprintf(R->cls, sizeof R->cls, "no-termination");
		else if (asrt) snprintf(R->cls, sizeof R->cls, "abort-assertion");
		else if (strstr(buf, "terminate called")) snprintf(R->cls, sizeof R->cls, "abort-terminate");
		else snprintf(R->cls, sizeof R->cls, "crash-signal-%d", sig);
		snprintf(R->msg, sizeof R->msg, "process died with signal %d; stderr: %.1300s", sig, buf);
	} else {
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
		snprintf(R->cls, sizeof R->cls, "exit-%d", code);
		snprintf(R->msg, sizeof R->msg, "process exited with code %d inside the run; stderr: %.1300s", code, buf);
	}
	if (!relevant(R->cls)) {
		char b[40]; snprintf(b, sizeof b, "other:%.30s", R->cls);
		probe(b);
		R->status = 1;
	}
}

typedef std::vector<TraceEnt> Trace;
static void set_replay(const Trace &t)
{
	replay_tab.clear();
	for (auto &e : t) replay_tab[e.stream].push_back({e.ctr, e.val});
	for (auto &kv : replay_tab) std::sort(kv.second.begin(), kv.second.end());
}
static void write_replay(const std::string &path, uint64_t seed, const Trace &t)
{
	std::string tmp = path + ".tmp";
	FILE *f = fopen(tmp.c_str(), "w");
	if (!f) { perror(path.c_str()); _exit(97); }
	fprintf(f, "property %s\nseed %" PRIu64 "\nclass %s\nhash %016" PRIx64 "\nentries %zu\n", scen->name, seed, R->cls, R->hash, t.size());
	for (auto &e : t) fprintf(f, "d %s %" PRIu64 " %" PRIu64 "\n", e.stream, e.ctr, e.val);
	fprintf(f, "end\n");
	std::string m(R->msg);
	fprintf(f, "# sample: %s\n", R->sample);
	size_t p = 0;
	while (p <= m.size()) { size_t q = m.find('\n', p); if (q == std::string::npos) q = m.size(); fprintf(f, "# %s\n", m.substr(p, q - p).c_str()); p = q + 1; }
	fclose(f);
	rename(tmp.c_str(), path.c_str());
}
static bool hash_matters(const std::string &cls) { return cls != "no-termination" && cls != "hang-outside-simulation"; }
static void write_seed_replay(const std::string &path, uint64_t seed)
{
	FILE *f = fopen(path.c_str(), "w");
	if (!f) { perror(path.c_str()); _exit(97); }
	fprintf(f, "property %s\nseed %" PRIu64 "\nclass %s\nhash %016" PRIx64 "\nseeded 1\nend\n# decisions too many to list: the seed is the trace\n# %s\n", scen->name, seed, R->cls, R->hash, R->sample);
	fclose(f);
}
static bool load_seeded;
static bool load_replay(const std::string &path, uint64_t &seed, Trace &t, std::string &cls, uint64_t &hash)
{
	FILE *f = fopen(path.c_str(), "r");
	if (!f) return false;
	char line[400];
	while (fgets(line, sizeof line, f)) {
		char s[64]; uint64_t a, b;
		if (sscanf(line, "seed %" SCNu64, &a) == 1) seed = a;
		else if (sscanf(line, "class %63s", s) == 1) cls = s;
		else if (sscanf(line, "hash %" SCNx64, &a) == 1) hash = a;
		else if (!strncmp(line, "seeded 1", 8)) load_seeded = true;
		else if (sscanf(line, "d %23s %" SCNu64 " %" SCNu64, s, &a, &b) == 3) {
			TraceEnt e; memset(&e, 0, sizeof e); snprintf(e.stream, sizeof e.stream, "%.23s", s); e.ctr = a; e.val = b; t.push_back(e);
		} else if (!strncmp(line, "end", 3)) break;
	}
	fclose(f);
	return true;
}

static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

// class equality for minimisation and replay
static bool same_class(const std::string &c) { return R->status == 2 && c == R->cls; }

static Trace minimise(uint64_t seed, Trace t, const std::string &cls, double budget_s, int *tries)
{
	double t0 = now();
	auto test = [&](const Trace &c) {
		(*tries)++;
		set_replay(c);
		run_once(seed, true);
		return same_class(cls);
	};
	// 1. whole streams first (schedule, fault kinds)
	for (bool again = true; again && now() - t0 < budget_s;) {
		again = false;
		std::set<std::string> names;
		for (auto &e : t) names.insert(e.stream);
		for (auto &n : names) {
			if (now() - t0 > budget_s) break;
			Trace c;
			for (auto &e : t) if (n != e.stream) c.push_back(e);
			if (c.size() < t.size() && test(c)) { t = c; again = true; }
		}
	}
	// 2. ddmin over entries
	size_t n = 2;
	while (t.size() >= 1 && now() - t0 < budget_s) {
		size_t len = t.size(), chunk = (len + n - 1) / n;
		bool red = false;
		for (size_t i = 0; i < len && now() - t0 < budget_s; i += chunk) {
			Trace c(t.begin(), t.begin() + i);
			c.insert(c.end(), t.begin() + std::min(len, i + chunk), t.end());
			if (c.size() < t.size() && test(c)) { t = c; n = std::max<size_t>(n - 1, 2); red = true; break; }
		}
		if (!red) {
			if (chunk == 1) break;
			n = std::min(n * 2, len);
		}
	}
	// 3. smaller values
	for (size_t i = 0; i < t.size() && now() - t0 < budget_s; i++) {
		while (t[i].val > 1 && now() - t0 < budget_s) {
			Trace c = t;
			c[i].val = 1;
			if (test(c)) { t = c; break; }
			c[i].val = t[i].val / 2;
			if (c[i].val > 1 && test(c)) { t = c; continue; }
			c[i].val = t[i].val - 1;
			if (c[i].val > 1 && t[i].val < 64 && test(c)) { t = c; continue; }
			break;
		}
	}
	return t;
}

static int cmd_replay()
{
	uint64_t seed = 0, hash = 0; Trace t; std::string cls;
	if (!load_replay(O.replay_file, seed, t, cls, hash)) { fprintf(stderr, "cannot read %s\n", O.replay_file.c_str()); return 2; }
	set_replay(t);
	run_once(seed, !load_seeded);
	bool same = same_class(cls) && (R->hash == hash || !hash_matters(cls));
	printf("replay class=%s expected=%s hash=%016" PRIx64 " expected=%016" PRIx64 " -> %s\n", R->status == 2 ? R->cls : "none", cls.c_str(), R->hash, hash, same ? "REPRODUCED" : "DIFFERENT");
	if (R->status == 2) printf("%s\n", R->msg);
	if (!child_stderr.empty()) printf("--- stderr of the run ---\n%s\n", child_stderr.c_str());
	return same ? 1 : (R->status == 2 ? 4 : 0);
}

static int cmd_batch()
{
	std::map<std::string, uint64_t> faults, probes, known;
	std::vector<uint64_t> scheds, states, hashes;
	std::vector<std::string> samples;
	uint64_t runs = 0, nontriv = 0, steps_total = 0, switches = 0, detfail = 0, detruns = 0, sim_ns = 0;
	double t0 = now();
	std::string viol_json = "null";
	uint64_t kept = 0;
	for (uint64_t k = 0; k < O.runs; k++) {
		if (now() - t0 > O.max_s) break;
		uint64_t idx = O.from + k * O.stride;
		uint64_t seed = mix(mix(O.seed) ^ mix(idx + 0x1234567));
		run_once(seed, false);
		runs++;
		for (int i = 0; i < R->nfaults; i++) faults[R->faults[i].name] += R->faults[i].n;
		for (int i = 0; i < R->nprobes; i++) probes[R->probes[i].name] += R->probes[i].n;
		for (int i = 0; i < R->nknown; i++) known[R->known[i].name] += R->known[i].n;
		steps_total += R->steps; sim_ns += R->sim_ns; switches += R->switches;
		if (R->nontrivial) { nontriv++; scheds.push_back(R->hash ^ R->sched_hash); }
		for (uint64_t i = 0; i < R->nstates; i++) states.push_back(R->states[i]);
		hashes.push_back(R->hash);
		if (kept < 3 && R->nontrivial && R->sample[0]) { kept++; samples.push_back("run " + std::to_string(idx) + ": " + R->sample); }
		if (R->status == 2) {
			std::string cls = R->cls, msg = R->msg, smp = R->sample, se = child_stderr;
			uint64_t h1 = R->hash;
			Trace t(R->trace, R->trace + R->ntrace);
			bool overflow = R->trace_overflow;
			run_once(seed, false);
			bool same_hash = R->hash == h1 || !hash_matters(cls);
			bool twice = same_class(cls);
			// replay from the recorded trace must reproduce as well
			bool rep = false, seeded = false; size_t orig = t.size(); int tries = 0;
			if (twice && !overflow) {
				set_replay(t);
				run_once(seed, true);
				rep = same_class(cls);
				if (rep) {
					t = minimise(seed, t, cls, O.min_s, &tries);
					set_replay(t);
					run_once(seed, true);
					rep = same_class(cls);
					msg = R->msg; smp = R->sample;
				}
			} else if (twice && overflow) {
				seeded = true; // too long to list: the seed itself is the trace
			}
			std::string path = O.out + ".replay";
			if (twice && !rep && !overflow) { seeded = true; run_once(seed, false); }
			if (rep) write_replay(path, seed, t);
			else if (seeded) { write_seed_replay(path, seed); rep = true; }
			replay_tab.clear();
			viol_json = "{\"index\":" + std::to_string(idx) + ",\"seed\":\"" + std::to_string(seed) + "\",\"class\":" + jstr(cls) + ",\"msg\":" + jstr(msg) +
				",\"sample\":" + jstr(smp) + ",\"stderr\":" + jstr(se.substr(0, 1500)) +
				",\"deterministic\":" + (twice && same_hash ? "true" : "false") + ",\"reproduced\":" + (twice ? "true" : "false") + ",\"replays\":" + (rep ? "true" : "false") +
				",\"trace\":" + std::to_string(orig) + ",\"min_trace\":" + std::to_string(t.size()) + ",\"min_tries\":" + std::to_string(tries) +
				",\"replay\":" + (rep ? jstr(path) : "null") + "}";
			break;
		}
		if (O.det_every && k % O.det_every == 0) {
			detruns++;
			uint64_t h = R->hash, sh = R->sched_hash;
			run_once(seed, false);
			if (R->hash != h || R->sched_hash != sh || R->status != 1) { detfail++; printf("nondeterministic run %" PRIu64 "\n", idx); }
			Trace t(R->trace, R->trace + R->ntrace);
			if (!R->trace_overflow) {
				set_replay(t);
				run_once(seed, true);
				if (R->hash != h) { detfail++; printf("replay differs for run %" PRIu64 "\n", idx); }
				replay_tab.clear();
			}
		}
	}
	FILE *f = fopen(O.out.c_str(), "w");
	if (!f) { perror(O.out.c_str()); return 97; }
	fprintf(f, "{\"runs\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"switches\":%" PRIu64 ",\"wall\":%.3f,\"detfail\":%" PRIu64 ",\"detruns\":%" PRIu64 ",\"sim_ns\":%" PRIu64 ",\n", runs, nontriv, steps_total, switches, now() - t0, detfail, detruns, sim_ns);
	auto dump = [&](const char *k, std::map<std::string, uint64_t> &m) {
		fprintf(f, "\"%s\":{", k);
		bool first = true;
		for (auto &kv : m) { fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(kv.first).c_str(), kv.second); first = false; }
		fprintf(f, "},\n");
	};
	dump("faults", faults); dump("probes", probes); dump("known", known);
	auto dumpv = [&](const char *k, std::vector<uint64_t> &v) {
		std::sort(v.begin(), v.end());
		v.erase(std::unique(v.begin(), v.end()), v.end());
		fprintf(f, "\"%s\":[", k);
		for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s\"%" PRIx64 "\"", i ? "," : "", v[i]);
		fprintf(f, "],\n");
	};
	uint64_t hh = 0;
	for (auto h : hashes) hh = mix(hh ^ h);
	fprintf(f, "\"batch_hash\":\"%016" PRIx64 "\",\n", hh);
	dumpv("scheds", scheds); dumpv("states", states);
	fprintf(f, "\"samples\":[");
	for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
	fprintf(f, "],\n\"violation\":%s}\n", viol_json.c_str());
	fclose(f);
	return viol_json == "null" ? 0 : 1;
}

int main(int argc, char **argv)
{
	// Same addresses every time: replay must not depend on ASLR
	if (!getenv("SIM_NOASLR")) {
		setenv("SIM_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	bool one = false; uint64_t oneidx = 0;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() -> std::string { if (i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); _exit(2); } return argv[++i]; };
		if (a == "--prop") O.prop = nx();
		else if (a == "--seed") O.seed = strtoull(nx().c_str(), 0, 0);
		else if (a == "--from") O.from = strtoull(nx().c_str(), 0, 0);
		else if (a == "--stride") O.stride = strtoull(nx().c_str(), 0, 0);
		else if (a == "--runs") O.runs = strtoull(nx().c_str(), 0, 0);
		else if (a == "--max-s") O.max_s = atof(nx().c_str());
		else if (a == "--timeout") O.timeout_s = atoi(nx().c_str());
		else if (a == "--out") O.out = nx();
		else if (a == "--replay") O.replay_file = nx();
		else if (a == "--known") O.known_file = nx();
		else if (a == "--one") { one = true; oneidx = strtoull(nx().c_str(), 0, 0); }
		else if (a == "--verbose") verbose = true;
		else if (a == "--no-min") O.min_s = 0;
		else if (a == "--det") O.det_every = 1;
		else if (a == "--det-every") O.det_every = strtoull(nx().c_str(), 0, 0);
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	errfd = memfd_create("simerr", MFD_CLOEXEC);
	if (R == MAP_FAILED || errfd < 0) { perror("setup"); return 96; }
	if (!O.replay_file.empty() && O.prop.empty()) {
		FILE *f = fopen(O.replay_file.c_str(), "r");
		char p[64];
		if (f && fscanf(f, "property %63s", p) == 1) O.prop = p;
		if (f) fclose(f);
	}
	for (int i = 0; i < num_scenarios; i++) if (O.prop == scenarios[i].name) scen = &scenarios[i];
	if (!scen) { fprintf(stderr, "no scenario %s\n", O.prop.c_str()); return 2; }
	cur_scenario = scen->name;
	if (!O.known_file.empty()) {
		// lines: "known: property=<id> key=<key> <text>"
		FILE *f = fopen(O.known_file.c_str(), "r");
		char line[2000], p[64], k[128];
		while (f && fgets(line, sizeof line, f))
			if (sscanf(line, "known: property=%63s key=%127s", p, k) == 2) known_keys.insert(std::string(p) + " " + k);
		if (f) fclose(f);
	}
	if (!O.replay_file.empty()) return cmd_replay();
	if (one) {
		uint64_t seed = mix(mix(O.seed) ^ mix(oneidx + 0x1234567));
		run_once(seed, false);
		printf("run %" PRIu64 " status=%d class=%s hash=%016" PRIx64 " sched=%016" PRIx64 " steps=%" PRIu64 " switches=%" PRIu64 " trace=%" PRIu64 " nontrivial=%d\nsample: %s\n%s\n%s\n", oneidx, R->status, R->cls, R->hash, R->sched_hash, R->steps, R->switches, R->ntrace, R->nontrivial, R->sample, R->msg, child_stderr.c_str());
		for (int i = 0; i < R->nfaults; i++) printf("  fault %s %" PRIu64 "\n", R->faults[i].name, R->faults[i].n);
		for (int i = 0; i < R->nprobes; i++) printf("  probe %s %" PRIu64 "\n", R->probes[i].name, R->probes[i].n);
		return R->status == 2;
	}
	if (O.out.empty()) { fprintf(stderr, "--out needed\n"); return 2; }
	return cmd_batch();
}

} // namespace sim

int main(int argc, char **argv) { return sim::main(argc, argv); }
