// An OpenCL platform inside the simulation. Kernels are the real OpenCL C source,
// compiled natively at clBuildProgram time and executed work-item by work-item in a
// simulated order; commands complete asynchronously at simulated moments; every API
// call can fail.
#pragma once
#include "../sim/sim.h"
#define CL_TARGET_OPENCL_VERSION 120
#include <CL/cl.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

extern "C" char **environ;
namespace fcl {
using namespace sim;
typedef std::vector<uint8_t> Bytes;

enum Kind { K_PLATFORM = 0x71, K_DEVICE, K_CONTEXT, K_QUEUE, K_MEM, K_PROGRAM, K_KERNEL, K_EVENT };
struct Obj { int kind; int refs; };
static std::vector<Obj *> all_objects;       // everything ever created in this run
static uint32_t api_den;                     // 0: no API faults
static __thread int tl_api_faults;           // API calls of this thread that were made to fail
static __thread int tl_call;                 // current call of this thread (the harness counts them)
static __thread int tl_build_faults;         // of these: those a fallback may absorb
static bool exec_faults;
static uint32_t bin_den;                     // 0: no faults of what only the program cache needs
static uint64_t kernels_run, source_builds, binary_builds;
static std::string last_program;             // identity of the program a kernel was created from

#define API sim::User u_; sim::NoFault nf_
static bool api_fault(const char *fn)
{
	sync_point(fn, 0);
	if (!api_den || !chance("clfault", 1, api_den)) return false;
	char b[60]; snprintf(b, sizeof b, "%s-fails", fn);
	fault(b);
	tl_api_faults++;
	return true;
}
// the driver failing, for a moment, at something only the program cache needs
static bool bin_fault()
{
	if (!bin_den || !chance("binfault", 1, bin_den)) return false;
	fault("cached-program-fails");
	return true;
}
static cl_int e(std::initializer_list<cl_int> l) { return *(l.begin() + pick("clerr", l.size())); }
template <typename T> static T *reg(T *o, Kind k) { o->o.kind = k; o->o.refs = 1; all_objects.push_back(&o->o); return o; }
} // namespace fcl

struct _cl_platform_id { fcl::Obj o; std::string name; std::vector<cl_device_id> devs; };
struct _cl_device_id { fcl::Obj o; cl_platform_id plat; cl_device_type type; bool available; std::string name, driver; bool strict, anyname; };
struct _cl_context { fcl::Obj o; std::vector<cl_device_id> devs; };
struct _cl_mem { fcl::Obj o; cl_context ctx; cl_mem_flags flags; size_t size; uint8_t *p; bool mapped; void *host; std::map<void *, std::pair<size_t, std::pair<size_t, cl_map_flags>>> maps; int uses; };
struct Build { cl_build_status st; std::string opts, log, so, ident; fcl::Bytes bin; bool has_bin; };
struct _cl_program { fcl::Obj o; cl_context ctx; bool from_binary; std::string src; std::vector<cl_device_id> devs; std::map<cl_device_id, Build> b; };
struct _cl_kernel { fcl::Obj o; cl_program prog; std::string name; std::map<unsigned, std::vector<uint8_t>> args; };
struct Cmd;
struct _cl_event { fcl::Obj o; cl_command_queue q; cl_int status; cl_ulong t0, t1; };
struct Cmd {
	int *owner, *gencur, gen; // fault count of the submitting thread; its current call and the one this belongs to
	int type; // 0 kernel, 1 unmap, 2 read, 3 write, 4 marker, 5 map, 6 copy, 7 fill
	cl_event ev;
	std::vector<cl_event> wait;
	cl_program prog; std::string so; std::vector<uint64_t> args; size_t gsize, goff; std::vector<cl_mem> mems;
	cl_mem m, m2; size_t off, off2, n; void *host; std::vector<uint8_t> pattern;
	bool healthy; // submitted while commands do not fail
};
struct _cl_command_queue { fcl::Obj o; cl_context ctx; cl_device_id dev; cl_command_queue_properties props; std::deque<Cmd *> q; std::mutex busy; };

namespace fcl {
template <typename T> static bool ok(T *o, Kind k, const char *what)
{
	if (!o) return false;
	if (o->o.kind != k) violate("cl-misuse", "%s: not the right kind of object", what);
	if (o->o.refs <= 0) violate("cl-use-after-release", "%s on an object that was released", what);
	return true;
}
// ------------------------------------------------------------------ kernels
static size_t max_buffer = (size_t)1 << 31;
// the sizes of the kernel's arguments as the source declares them (0: unknown)
static std::map<std::string, std::vector<unsigned>> kernel_args; // by compiled program
static std::vector<unsigned> arg_sizes(const std::string &src)
{
	std::vector<unsigned> r;
	size_t a = src.find("decompress(", src.find("__kernel void"));
	if (a == std::string::npos) return r;
	a += 11;
	int depth = 0; std::string cur;
	for (; a < src.size(); a++) {
		char c = src[a];
		if (c == '(') depth++;
		if ((c == ',' || c == ')') && depth == 0) {
			auto has = [&](const char *w) { return cur.find(w) != std::string::npos; };
			r.push_back(has("*") || has("long") || has("size_t") || has("int64") ? 8 : has("int") && !has("int16") && !has("int8") ? 4 : 0);
			cur.clear();
			if (c == ')') return r;
			continue;
		}
		if (c == ')') depth--;
		cur += c;
	}
	r.clear();
	return r;
}
static std::string clk_dir()
{
	char b[500];
	ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1);
	b[n > 0 ? n : 0] = 0;
	char *s = strrchr(b, '/');
	if (s) *s = 0;
	return std::string(b) + "/clk";
}
static uint64_t hash_str(const std::string &s, uint64_t h) { for (unsigned char c : s) h = mix64(h ^ c) + c; return mix64(h ^ s.size()); }
#ifdef SIM_NOTHREADS
static const char *const SAN = "-fsanitize=address";
#else
static const char *const SAN = "-fsanitize=thread";
#endif
// compiles source with options; "" and a log on failure
static std::string compile(const std::string &src, const std::string &opts, std::string &log)
{
	uint64_t h1 = hash_str(src, 0x1234) ^ hash_str(opts, 0x77), h2 = hash_str(opts, 0x55) + 3 * hash_str(src, 0x99);
	char nm[80]; snprintf(nm, sizeof nm, "/%c%016llx%016llx", SAN[11], (unsigned long long)h1, (unsigned long long)h2);
	std::string base = clk_dir() + nm, so = base + ".so", bad = base + ".bad";
	struct stat st;
	if (stat(so.c_str(), &st) == 0) return so;
	if (stat(bad.c_str(), &st) == 0) { log = "compile error"; return ""; }
	mkdir(clk_dir().c_str(), 0755);
	// (no C++ library code here: whether a kernel is in the store must not be visible to the simulation)
	static char tmp[700], csrc[720], cso[720], cerr[720], optbuf[4096];
	static char *a[64];
	snprintf(tmp, sizeof tmp, "%s.%d", base.c_str(), getpid());
	snprintf(csrc, sizeof csrc, "%s.cl", tmp); snprintf(cso, sizeof cso, "%s.so", tmp); snprintf(cerr, sizeof cerr, "%s.err", tmp);
	int fd = syscall(SYS_open, csrc, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	for (size_t p = 0; p < src.size();) { ssize_t n = syscall(SYS_write, fd, src.data() + p, src.size() - p); if (n <= 0) _exit(99); p += n; }
	syscall(SYS_close, fd);
	static const char *const fixed[] = {"clang", "-x", "cl", "-cl-std=CL1.2", "-target", "x86_64-pc-linux-gnu", "-O1", "-w", "-fPIC", "-shared", SAN, "-g0",
				       "-Xclang", "-fdeclare-opencl-builtins", "-Xclang", "-finclude-default-header"};
	int na = 0;
	for (auto f : fixed) a[na++] = (char *)f;
	snprintf(optbuf, sizeof optbuf, "%s", opts.c_str());
	for (char *p = strtok(optbuf, " "); p && na < 58; p = strtok(nullptr, " ")) a[na++] = p;
	a[na++] = csrc; a[na++] = (char *)"-o"; a[na++] = cso; a[na] = nullptr;
	pid_t pid = fork();
	if (pid == 0) {
		int efd = syscall(SYS_open, cerr, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		dup2(efd, 1); dup2(efd, 2);
		execve("/usr/bin/clang", a, environ);
		_exit(127);
	}
	int ws = 0;
	while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(ws) && WEXITSTATUS(ws) == 127) _exit(99);
	bool good = WIFEXITED(ws) && WEXITSTATUS(ws) == 0;
	if (good) { syscall(SYS_rename, cso, so.c_str()); syscall(SYS_unlink, cerr); }
	else syscall(SYS_rename, cerr, bad.c_str());
	syscall(SYS_unlink, csrc);
	if (good) return so;
	log = "compile error";
	return "";
}
static __thread size_t tl_gid, tl_gsize;
typedef void (*kfn)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
static void run_item(kfn f, const std::vector<uint64_t> &a, size_t gid, size_t gsize)
{
	tl_gid = gid; tl_gsize = gsize;
	f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
}
static size_t active_items = 16; // work-items that have something to do (the harness says)
static int threads_left = 40;
static void exec_kernel(Cmd *c)
{
	void *h = dlopen(c->so.c_str(), RTLD_NOW | RTLD_LOCAL);
	if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(99); }
	kfn f = (kfn)dlsym(h, "decompress");
	if (!f) { fprintf(stderr, "no kernel entry\n"); _exit(99); }
	std::vector<uint64_t> a = c->args;
	a.resize(12);
	size_t n = c->gsize, act = active_items < n ? active_items : n;
	kernels_run++;
	for (auto m : c->mems) if (!m->maps.empty()) violate("cl-misuse", "kernel runs on a buffer that is still mapped");
	// order of the work-items that matter; the rest only checks its index
	std::vector<size_t> ord(act);
	for (size_t i = 0; i < act; i++) ord[i] = i;
	switch (pick("itemorder", 3)) {
	case 0: break;
	case 1: for (size_t i = 0; i < act / 2; i++) std::swap(ord[i], ord[act - 1 - i]); break;
	default: for (size_t i = act; i > 1; i--) std::swap(ord[i - 1], ord[pick("itemperm", i)]); probe("items-permuted");
	}
	size_t done = 0;
#ifndef SIM_NOTHREADS
	size_t par = act < 8 ? act : 8;
	if ((int)par > threads_left) par = 0;
	threads_left -= par;
	if (par > 1 && pick("itemthreads", 4)) {
		// that many compute units, each taking work-items; preempted anywhere
		std::vector<std::thread> th;
		size_t *next = &done;
		for (size_t t = 0; t < par; t++)
			th.emplace_back([=, &ord, &a] {
				for (;;) {
					size_t i = *next;
					if (i >= act) return;
					*next = i + 1;
					run_item(f, a, ord[i], n);
				}
			});
		for (auto &t : th) t.join();
		probe("items-interleaved");
	}
#endif
	for (; done < act; done++) run_item(f, a, ord[done], n);
	for (size_t i = act; i < n; i++) run_item(f, a, i, n);
}
static void exec(Cmd *c)
{
	c->ev->t0 = 1000000 * (steps() + 1);
	cl_int st = CL_COMPLETE;
	for (auto w : c->wait) if (w->status < 0) st = CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST;
	if (st == CL_COMPLETE && exec_faults && !c->healthy && chance("execfault", 1, 10)) { fault("command-fails"); if (*c->gencur == c->gen) ++*c->owner; st = e({CL_OUT_OF_RESOURCES, CL_MEM_OBJECT_ALLOCATION_FAILURE, -9999}); }
	if (st == CL_COMPLETE)
		switch (c->type) {
		case 0: exec_kernel(c); break;
		case 1: {
			auto it = c->m->maps.find(c->host);
			if (it->second.second.second & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION)) memcpy(c->m->p + it->second.first, c->host, it->second.second.first);
			free(c->host);
			c->m->maps.erase(it);
			break;
		}
		case 2: memcpy(c->host, c->m->p + c->off, c->n); break;
		case 3: memcpy(c->m->p + c->off, c->host, c->n); break;
		case 5: memcpy(c->host, c->m->p + c->off, c->n); break;
		case 6: memmove(c->m2->p + c->off2, c->m->p + c->off, c->n); break;
		case 7: for (size_t i = 0; i < c->n; i++) c->m->p[c->off + i] = c->pattern[i % c->pattern.size()]; break;
		}
	c->ev->status = st;
	c->ev->t1 = 1000000 * (steps() + 5);
}
static void rel_event(cl_event ev) { ev->o.refs--; }
static void destroy_mem(cl_mem m) { if (m->o.refs <= 0 && m->uses == 0 && m->p) { if (m->mapped) munmap(m->p, m->size); else free(m->p); m->p = nullptr; } }
// the device gets some time: up to n commands are executed, in order or (if the queue
// allows that) in any order; none before the events it waits for
static void progress(cl_command_queue q, size_t n);
static void finish_to(cl_command_queue q, cl_event ev) { while (ev->status > CL_COMPLETE) progress(q, 1); }
static bool ready(Cmd *c) { for (auto w : c->wait) if (w->status > CL_COMPLETE) return false; return true; }
static void progress(cl_command_queue q, size_t n)
{
	std::lock_guard<std::mutex> in_order(q->busy);
	while (n-- && !q->q.empty()) {
		size_t at = 0;
		if (q->props & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE) {
			std::vector<size_t> can;
			for (size_t i = 0; i < q->q.size(); i++) if (ready(q->q[i])) can.push_back(i);
			if (!can.empty()) at = can[pick("anyorder", can.size())];
			if (at) probe("commands-reordered");
		}
		Cmd *c = q->q[at];
		for (auto w : c->wait) {
			if (w->q == q && w->status > CL_COMPLETE && !(q->props & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE)) violate("cl-misuse", "a command waits for one behind it in the same queue");
			if (w->q != q) finish_to(w->q, w);
		}
		q->q.erase(q->q.begin() + at);
		exec(c);
		for (auto m : c->mems) { m->uses--; destroy_mem(m); }
		rel_event(c->ev);
		for (auto w : c->wait) rel_event(w);
	}
}
static void maybe_progress(cl_command_queue q) { if (!q->q.empty() && chance("devstep", 1, 3)) progress(q, 1 + pick("devsteps", q->q.size())); }
static cl_int submit(cl_command_queue q, Cmd *c, cl_uint nw, const cl_event *w, cl_event *out)
{
	cl_event ev = reg(new _cl_event(), K_EVENT);
	ev->q = q; ev->status = CL_QUEUED;
	c->healthy = !exec_faults;
	c->ev = ev; c->owner = &tl_api_faults; c->gencur = &tl_call; c->gen = tl_call;
	for (cl_uint i = 0; i < nw; i++) { if (!ok(w[i], K_EVENT, "wait list")) return CL_INVALID_EVENT_WAIT_LIST; w[i]->o.refs++; c->wait.push_back(w[i]); }
	if (out) { *out = ev; ev->o.refs++; }
	for (auto m : c->mems) m->uses++;
	q->q.push_back(c);
	maybe_progress(q);
	return CL_SUCCESS;
}
// ------------------------------------------------------------------ binaries
static void put_s(Bytes &b, const std::string &s) { uint32_t n = s.size(); b.insert(b.end(), (uint8_t *)&n, (uint8_t *)&n + 4); b.insert(b.end(), s.begin(), s.end()); }
static bool get_s(const Bytes &b, size_t &p, std::string &s)
{
	uint32_t n;
	if (p + 4 > b.size()) return false;
	memcpy(&n, &b[p], 4); p += 4;
	if (n > b.size() - p) return false;
	s.assign((const char *)b.data() + p, n); p += n;
	return true;
}
static std::string ident_of(cl_device_id d, const std::string &src, const std::string &opts)
{
	char h[40]; snprintf(h, sizeof h, "%016llx", (unsigned long long)hash_str(src, 1));
	return d->name + "|" + d->driver + "|" + opts + "|" + h;
}
static Bytes make_binary(cl_device_id d, const std::string &src, const std::string &opts, const std::string &so)
{
	Bytes b;
	put_s(b, "FAKEBIN1"); put_s(b, d->name); put_s(b, d->driver);
	Bytes body;
	std::string id = ident_of(d, src, opts);
	put_s(body, id); put_s(body, so.substr(so.rfind('/') + 1)); // machine code
	uint64_t x = hash_str(id, 5);
	std::string pay;
	for (int i = 0; i < 240; i++) pay += (char)(mix64(x + i) & 0xff);
	put_s(body, pay);
	put_s(b, std::string(body.begin(), body.end()));
	uint64_t sum = hash_str(std::string(body.begin(), body.end()), 9);
	b.insert(b.end(), (uint8_t *)&sum, (uint8_t *)&sum + 8);
	return b;
}
// what the driver makes of a binary; false: rejected
static bool load_binary(cl_device_id d, const Bytes &b, std::string &ident, std::string &so)
{
	size_t p = 0;
	std::string magic, name, drv, body;
	if (!get_s(b, p, magic) || magic != "FAKEBIN1" || !get_s(b, p, name) || (name != d->name && !d->anyname) || !get_s(b, p, drv) || drv != d->driver || !get_s(b, p, body)) return false;
	uint64_t sum = hash_str(body, 9), have = 0;
	bool intact = p + 8 == b.size();
	if (intact) memcpy(&have, &b[p], 8);
	intact = intact && have == sum;
	if (!intact && d->strict) return false;
	Bytes bb(body.begin(), body.end());
	size_t q = 0;
	if (!get_s(bb, q, ident) || !get_s(bb, q, so)) { ident = "damaged"; so = ""; }
	if (!intact) ident = "damaged"; // a driver that does not verify what it loads
	else so = clk_dir() + "/" + so;
	return true;
}
static void live_objects(std::string &s)
{
	static const char *const names[] = {"platform", "device", "context", "queue", "buffer", "program", "kernel", "event"};
	for (auto o : all_objects) if (o->kind >= K_CONTEXT && o->refs > 0) s += std::string(names[o->kind - K_PLATFORM]) + " ";
}
static void drain_all()
{
	for (auto o : all_objects) if (o->kind == K_QUEUE) progress((cl_command_queue)o, SIZE_MAX);
}
static std::vector<cl_platform_id> platforms;
static cl_platform_id add_platform(const char *name) { auto p = reg(new _cl_platform_id(), K_PLATFORM); p->name = name; platforms.push_back(p); return p; }
static cl_device_id add_device(cl_platform_id p, cl_device_type t, const char *name, const char *drv, bool strict)
{
	auto d = reg(new _cl_device_id(), K_DEVICE);
	d->plat = p; d->type = t; d->available = true; d->name = name; d->driver = drv; d->strict = strict; d->anyname = false;
	p->devs.push_back(d);
	return d;
}
static cl_int info_out(const void *v, size_t n, size_t sz, void *val, size_t *ret)
{
	if (val) { if (sz < n) return CL_INVALID_VALUE; memcpy(val, v, n); }
	if (ret) *ret = n;
	return CL_SUCCESS;
}
static cl_int info_str(const std::string &s, size_t sz, void *val, size_t *ret) { return info_out(s.c_str(), s.size() + 1, sz, val, ret); }
} // namespace fcl

using fcl::ok;
using sim::violate; using sim::fault; using sim::event;
#define KINFO(X) fcl::info_out(&(X), sizeof(X), sz, val, ret)
extern "C" {
size_t _Z13get_global_idj(unsigned d) { return d == 0 ? fcl::tl_gid : 0; }
size_t _Z12get_local_idj(unsigned d) { return d == 0 ? fcl::tl_gid % 256 : 0; }
size_t _Z12get_group_idj(unsigned d) { return d == 0 ? fcl::tl_gid / 256 : 0; }
size_t _Z15get_global_sizej(unsigned d) { return d == 0 ? fcl::tl_gsize : 1; }
size_t _Z14get_local_sizej(unsigned d) { return d == 0 ? 256 : 1; }
size_t _Z14get_num_groupsj(unsigned d) { return d == 0 ? fcl::tl_gsize / 256 : 1; }
size_t _Z17get_global_offsetj(unsigned) { return 0; }

cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *out, cl_uint *cnt)
{
	API;
	if (fcl::api_fault("clGetPlatformIDs")) return fcl::e({CL_OUT_OF_HOST_MEMORY, -1001});
	if (fcl::platforms.empty()) return -1001;
	if (cnt) *cnt = fcl::platforms.size();
	for (cl_uint i = 0; out && i < n && i < fcl::platforms.size(); i++) out[i] = fcl::platforms[i];
	return CL_SUCCESS;
}
cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(p, fcl::K_PLATFORM, "clGetPlatformInfo")) return CL_INVALID_PLATFORM;
	if (fcl::api_fault("clGetPlatformInfo")) return CL_OUT_OF_HOST_MEMORY;
	return fcl::info_str(k == CL_PLATFORM_VERSION ? "OpenCL 1.2 sim" : p->name, sz, val, ret);
}
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *out, cl_uint *cnt)
{
	API;
	if (!ok(p, fcl::K_PLATFORM, "clGetDeviceIDs")) return CL_INVALID_PLATFORM;
	if (fcl::api_fault("clGetDeviceIDs")) return fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
	cl_uint k = 0;
	for (auto d : p->devs) if (d->type & t) { if (out && k < n) out[k] = d; k++; }
	if (cnt) *cnt = k;
	return k ? CL_SUCCESS : CL_DEVICE_NOT_FOUND;
}
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(d, fcl::K_DEVICE, "clGetDeviceInfo")) return CL_INVALID_DEVICE;
	if (fcl::api_fault("clGetDeviceInfo")) return fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
	cl_bool b; size_t s;
	switch (k) {
	case CL_DEVICE_NAME: return fcl::info_str(d->name, sz, val, ret);
	case CL_DRIVER_VERSION: return fcl::info_str(d->driver, sz, val, ret);
	case CL_DEVICE_VENDOR: return fcl::info_str("sim", sz, val, ret);
	case CL_DEVICE_VERSION: return fcl::info_str("OpenCL 1.2 sim", sz, val, ret);
	case CL_DEVICE_AVAILABLE: b = d->available; return KINFO(b);
	case CL_DEVICE_TYPE: return KINFO(d->type);
	case CL_DEVICE_PLATFORM: return KINFO(d->plat);
	case CL_DEVICE_MAX_WORK_GROUP_SIZE: s = 1024; return KINFO(s);
	}
	return CL_INVALID_VALUE;
}
cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d, void (*)(const char *, const void *, size_t, void *), void *, cl_int *err)
{
	API;
	cl_int dummy; if (!err) err = &dummy;
	*err = CL_SUCCESS;
	if (!n || !d) { *err = CL_INVALID_VALUE; return nullptr; }
	if (fcl::api_fault("clCreateContext")) { *err = fcl::e({CL_OUT_OF_RESOURCES, CL_DEVICE_NOT_AVAILABLE, CL_OUT_OF_HOST_MEMORY}); return nullptr; }
	auto c = fcl::reg(new _cl_context(), fcl::K_CONTEXT);
	c->devs.assign(d, d + n);
	return c;
}
cl_int clGetContextInfo(cl_context c, cl_context_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(c, fcl::K_CONTEXT, "clGetContextInfo")) return CL_INVALID_CONTEXT;
	if (fcl::api_fault("clGetContextInfo")) return CL_OUT_OF_HOST_MEMORY;
	cl_uint n = c->devs.size();
	if (k == CL_CONTEXT_NUM_DEVICES) return KINFO(n);
	if (k == CL_CONTEXT_DEVICES) return fcl::info_out(c->devs.data(), c->devs.size() * sizeof(cl_device_id), sz, val, ret);
	if (k == CL_CONTEXT_PROPERTIES) return fcl::info_out(nullptr, 0, sz, nullptr, ret);
	return CL_INVALID_VALUE;
}
#define RR(T, H, K) \
	cl_int clRetain##T(H o) { API; if (!ok(o, K, "clRetain" #T)) return CL_INVALID_VALUE; o->o.refs++; return CL_SUCCESS; } \
	cl_int clRelease##T(H o) { API; if (!ok(o, K, "clRelease" #T)) return CL_INVALID_VALUE; o->o.refs--; after_release(o); return CL_SUCCESS; }
static void after_release(cl_context) {}
static void after_release(cl_program) {}
static void after_release(cl_kernel) {}
static void after_release(cl_event) {}
static void after_release(cl_mem m) { fcl::destroy_mem(m); }
static void after_release(cl_command_queue q) { if (q->o.refs == 0) fcl::progress(q, SIZE_MAX); }
RR(Context, cl_context, fcl::K_CONTEXT)
RR(Program, cl_program, fcl::K_PROGRAM)
RR(Kernel, cl_kernel, fcl::K_KERNEL)
RR(Event, cl_event, fcl::K_EVENT)
RR(MemObject, cl_mem, fcl::K_MEM)
RR(CommandQueue, cl_command_queue, fcl::K_QUEUE)

cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int *err)
{
	API;
	cl_int dummy; if (!err) err = &dummy;
	*err = CL_SUCCESS;
	if (!ok(c, fcl::K_CONTEXT, "clCreateCommandQueue")) { *err = CL_INVALID_CONTEXT; return nullptr; }
	if (fcl::api_fault("clCreateCommandQueue")) { *err = fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}); return nullptr; }
	auto q = fcl::reg(new _cl_command_queue(), fcl::K_QUEUE);
	q->ctx = c; q->dev = d; q->props = p;
	return q;
}
cl_int clGetCommandQueueInfo(cl_command_queue q, cl_command_queue_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(q, fcl::K_QUEUE, "clGetCommandQueueInfo")) return CL_INVALID_COMMAND_QUEUE;
	if (fcl::api_fault("clGetCommandQueueInfo")) return CL_OUT_OF_HOST_MEMORY;
	if (k == CL_QUEUE_CONTEXT) return KINFO(q->ctx);
	if (k == CL_QUEUE_DEVICE) return KINFO(q->dev);
	if (k == CL_QUEUE_PROPERTIES) return KINFO(q->props);
	return CL_INVALID_VALUE;
}
cl_mem clCreateBuffer(cl_context c, cl_mem_flags f, size_t n, void *host, cl_int *err)
{
	API;
	cl_int dummy; if (!err) err = &dummy;
	*err = CL_SUCCESS;
	if (!ok(c, fcl::K_CONTEXT, "clCreateBuffer")) { *err = CL_INVALID_CONTEXT; return nullptr; }
	if (n == 0) { *err = CL_INVALID_BUFFER_SIZE; return nullptr; }
	if (n > fcl::max_buffer) { *err = CL_INVALID_BUFFER_SIZE; return nullptr; }
	if (fcl::api_fault("clCreateBuffer")) { *err = fcl::e({CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}); return nullptr; }
	auto m = fcl::reg(new _cl_mem(), fcl::K_MEM);
	m->ctx = c; m->flags = f; m->size = n; m->host = host;
	m->mapped = n > (1ull << 31); // (address space without memory behind it until it is used)
	if (m->mapped) {
		m->p = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (m->p == MAP_FAILED) violate("harness", "no address space");
	} else {
		m->p = (uint8_t *)malloc(n);
		memset(m->p, 0xb7, n);
	}
	if (f & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR)) memcpy(m->p, host, n);
	return m;
}
cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(m, fcl::K_MEM, "clGetMemObjectInfo")) return CL_INVALID_MEM_OBJECT;
	if (fcl::api_fault("clGetMemObjectInfo")) return CL_OUT_OF_HOST_MEMORY;
	if (k == CL_MEM_SIZE) return KINFO(m->size);
	if (k == CL_MEM_CONTEXT) return KINFO(m->ctx);
	return CL_INVALID_VALUE;
}
// ---- commands
static bool queue_ok(cl_command_queue q, const char *f) { return ok(q, fcl::K_QUEUE, f); }
using fcl::finish_to;
void *clEnqueueMapBuffer(cl_command_queue q, cl_mem m, cl_bool blocking, cl_map_flags f, size_t off, size_t n, cl_uint nw, const cl_event *w, cl_event *ev, cl_int *err)
{
	API;
	cl_int dummy; if (!err) err = &dummy;
	*err = CL_SUCCESS;
	if (!queue_ok(q, "clEnqueueMapBuffer")) { *err = CL_INVALID_COMMAND_QUEUE; return nullptr; }
	if (!ok(m, fcl::K_MEM, "clEnqueueMapBuffer")) { *err = CL_INVALID_MEM_OBJECT; return nullptr; }
	if (n == 0 || off > m->size || n > m->size - off) { *err = CL_INVALID_VALUE; return nullptr; }
	if (fcl::api_fault("clEnqueueMapBuffer")) { *err = fcl::e({CL_MAP_FAILURE, CL_OUT_OF_RESOURCES, CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_HOST_MEMORY}); return nullptr; }
	void *p = malloc(n);
	memset(p, 0x9d, n);
	m->maps[p] = {off, {n, f}};
	auto c = new Cmd();
	c->type = 5; c->m = m; c->off = off; c->n = n; c->host = p; c->mems = {m};
	cl_event me;
	*err = fcl::submit(q, c, nw, w, &me);
	if (*err) return nullptr;
	if (blocking) {
		finish_to(q, me);
		if (me->status < 0) { *err = CL_MAP_FAILURE; me->o.refs--; return nullptr; }
	}
	if (ev) *ev = me; else me->o.refs--;
	return p;
}
cl_int clEnqueueUnmapMemObject(cl_command_queue q, cl_mem m, void *p, cl_uint nw, const cl_event *w, cl_event *ev)
{
	API;
	if (!queue_ok(q, "clEnqueueUnmapMemObject")) return CL_INVALID_COMMAND_QUEUE;
	if (!ok(m, fcl::K_MEM, "clEnqueueUnmapMemObject")) return CL_INVALID_MEM_OBJECT;
	if (!m->maps.count(p)) violate("cl-misuse", "unmap of a pointer that is not mapped");
	if (fcl::api_fault("clEnqueueUnmapMemObject")) return fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
	auto c = new Cmd();
	c->type = 1; c->m = m; c->host = p; c->mems = {m};
	return fcl::submit(q, c, nw, w, ev);
}
static cl_int rw(int type, const char *fn, cl_command_queue q, cl_mem m, cl_bool blocking, size_t off, size_t n, void *p, cl_uint nw, const cl_event *w, cl_event *ev)
{
	if (!queue_ok(q, fn)) return CL_INVALID_COMMAND_QUEUE;
	if (!ok(m, fcl::K_MEM, fn)) return CL_INVALID_MEM_OBJECT;
	if (!p || n == 0 || off > m->size || n > m->size - off) return CL_INVALID_VALUE;
	if (fcl::api_fault(fn)) return fcl::e({CL_OUT_OF_RESOURCES, CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_HOST_MEMORY});
	auto c = new Cmd();
	c->type = type; c->m = m; c->off = off; c->n = n; c->host = p; c->mems = {m};
	cl_event e2;
	cl_int r = fcl::submit(q, c, nw, w, &e2);
	if (r) return r;
	if (blocking) { finish_to(q, e2); if (e2->status < 0) { e2->o.refs--; return CL_OUT_OF_RESOURCES; } }
	if (ev) *ev = e2; else e2->o.refs--;
	return CL_SUCCESS;
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t off, size_t n, void *p, cl_uint nw, const cl_event *w, cl_event *ev) { API; return rw(2, "clEnqueueReadBuffer", q, m, b, off, n, p, nw, w, ev); }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool b, size_t off, size_t n, const void *p, cl_uint nw, const cl_event *w, cl_event *ev) { API; return rw(3, "clEnqueueWriteBuffer", q, m, b, off, n, (void *)p, nw, w, ev); }
cl_int clEnqueueCopyBuffer(cl_command_queue q, cl_mem a, cl_mem b, size_t ao, size_t bo, size_t n, cl_uint nw, const cl_event *w, cl_event *ev)
{
	API;
	if (!queue_ok(q, "clEnqueueCopyBuffer")) return CL_INVALID_COMMAND_QUEUE;
	if (!ok(a, fcl::K_MEM, "copy") || !ok(b, fcl::K_MEM, "copy")) return CL_INVALID_MEM_OBJECT;
	if (n == 0 || ao > a->size || n > a->size - ao || bo > b->size || n > b->size - bo) return CL_INVALID_VALUE;
	if (fcl::api_fault("clEnqueueCopyBuffer")) return CL_OUT_OF_RESOURCES;
	auto c = new Cmd();
	c->type = 6; c->m = a; c->m2 = b; c->off = ao; c->off2 = bo; c->n = n; c->mems = {a, b};
	return fcl::submit(q, c, nw, w, ev);
}
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void *pat, size_t pn, size_t off, size_t n, cl_uint nw, const cl_event *w, cl_event *ev)
{
	API;
	if (!queue_ok(q, "clEnqueueFillBuffer")) return CL_INVALID_COMMAND_QUEUE;
	if (!ok(m, fcl::K_MEM, "fill")) return CL_INVALID_MEM_OBJECT;
	if (!pn || off > m->size || n > m->size - off) return CL_INVALID_VALUE;
	if (fcl::api_fault("clEnqueueFillBuffer")) return CL_OUT_OF_RESOURCES;
	auto c = new Cmd();
	c->type = 7; c->m = m; c->off = off; c->n = n; c->pattern.assign((const uint8_t *)pat, (const uint8_t *)pat + pn); c->mems = {m};
	return fcl::submit(q, c, nw, w, ev);
}
cl_int clEnqueueMarkerWithWaitList(cl_command_queue q, cl_uint nw, const cl_event *w, cl_event *ev)
{
	API;
	if (!queue_ok(q, "clEnqueueMarkerWithWaitList")) return CL_INVALID_COMMAND_QUEUE;
	if (fcl::api_fault("clEnqueueMarkerWithWaitList")) return CL_OUT_OF_RESOURCES;
	auto c = new Cmd(); c->type = 4;
	return fcl::submit(q, c, nw, w, ev);
}
cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint nw, const cl_event *w, cl_event *ev) { return clEnqueueMarkerWithWaitList(q, nw, w, ev); }
cl_int clFlush(cl_command_queue q) { API; if (!queue_ok(q, "clFlush")) return CL_INVALID_COMMAND_QUEUE; if (fcl::api_fault("clFlush")) return CL_OUT_OF_RESOURCES; fcl::maybe_progress(q); return CL_SUCCESS; }
cl_int clFinish(cl_command_queue q)
{
	API;
	if (!queue_ok(q, "clFinish")) return CL_INVALID_COMMAND_QUEUE;
	if (fcl::api_fault("clFinish")) return CL_OUT_OF_RESOURCES;
	fcl::progress(q, SIZE_MAX);
	return CL_SUCCESS;
}
cl_int clWaitForEvents(cl_uint n, const cl_event *evs)
{
	API;
	if (!n || !evs) return CL_INVALID_VALUE;
	if (fcl::api_fault("clWaitForEvents")) return fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
	bool bad = false;
	for (cl_uint i = 0; i < n; i++) {
		if (!ok(evs[i], fcl::K_EVENT, "clWaitForEvents")) return CL_INVALID_EVENT;
		finish_to(evs[i]->q, evs[i]);
		if (evs[i]->status < 0) bad = true;
	}
	return bad ? CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST : CL_SUCCESS;
}
cl_int clGetEventInfo(cl_event ev, cl_event_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(ev, fcl::K_EVENT, "clGetEventInfo")) return CL_INVALID_EVENT;
	if (fcl::api_fault("clGetEventInfo")) return CL_OUT_OF_HOST_MEMORY;
	fcl::maybe_progress(ev->q);
	if (k == CL_EVENT_COMMAND_EXECUTION_STATUS) return KINFO(ev->status);
	if (k == CL_EVENT_COMMAND_QUEUE) return KINFO(ev->q);
	return CL_INVALID_VALUE;
}
cl_int clGetEventProfilingInfo(cl_event ev, cl_profiling_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(ev, fcl::K_EVENT, "clGetEventProfilingInfo")) return CL_INVALID_EVENT;
	if (!(ev->q->props & CL_QUEUE_PROFILING_ENABLE) || ev->status != CL_COMPLETE) return CL_PROFILING_INFO_NOT_AVAILABLE;
	if (fcl::api_fault("clGetEventProfilingInfo")) return CL_OUT_OF_HOST_MEMORY;
	return KINFO(k == CL_PROFILING_COMMAND_END ? ev->t1 : ev->t0);
}
// ---- programs
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *l, cl_int *err)
{
	API;
	cl_int dummy; if (!err) err = &dummy;
	*err = CL_SUCCESS;
	if (!ok(c, fcl::K_CONTEXT, "clCreateProgramWithSource")) { *err = CL_INVALID_CONTEXT; return nullptr; }
	if (fcl::api_fault("clCreateProgramWithSource")) { *err = fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}); return nullptr; }
	auto p = fcl::reg(new _cl_program(), fcl::K_PROGRAM);
	p->ctx = c; p->from_binary = false; p->devs = c->devs;
	for (cl_uint i = 0; i < n; i++) p->src += l && l[i] ? std::string(s[i], l[i]) : std::string(s[i]);
	for (auto d : p->devs) { p->b[d].st = CL_BUILD_NONE; p->b[d].has_bin = false; }
	return p;
}
cl_program clCreateProgramWithBinary(cl_context c, cl_uint n, const cl_device_id *d, const size_t *l, const unsigned char **bin, cl_int *status, cl_int *err)
{
	API;
	cl_int dummy; if (!err) err = &dummy;
	*err = CL_SUCCESS;
	if (!ok(c, fcl::K_CONTEXT, "clCreateProgramWithBinary")) { *err = CL_INVALID_CONTEXT; return nullptr; }
	if (!n || !d || !l || !bin) { *err = CL_INVALID_VALUE; return nullptr; }
	for (cl_uint i = 0; i < n; i++) if (!l[i] || !bin[i]) { if (status) status[i] = CL_INVALID_VALUE; *err = CL_INVALID_VALUE; return nullptr; }
	if (fcl::api_fault("clCreateProgramWithBinary")) { fcl::tl_build_faults++; *err = fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY, CL_INVALID_BINARY}); return nullptr; }
	if (fcl::bin_fault()) { *err = fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY, CL_INVALID_BINARY, CL_INVALID_VALUE, CL_INVALID_DEVICE, CL_INVALID_OPERATION}); return nullptr; }
	auto p = fcl::reg(new _cl_program(), fcl::K_PROGRAM);
	p->ctx = c; p->from_binary = true; p->devs.assign(d, d + n);
	for (cl_uint i = 0; i < n; i++) {
		Build &b = p->b[d[i]];
		b.st = CL_BUILD_NONE;
		b.bin.assign(bin[i], bin[i] + l[i]); b.has_bin = true;
		// drivers look at a binary either now or when it is built
		if (d[i]->strict && !fcl::load_binary(d[i], b.bin, b.ident, b.so)) { p->o.refs = 0; if (status) status[i] = CL_INVALID_BINARY; *err = CL_INVALID_BINARY; fault("binary-rejected"); return nullptr; }
		if (status) status[i] = CL_SUCCESS;
	}
	return p;
}
cl_int clBuildProgram(cl_program p, cl_uint n, const cl_device_id *d, const char *opts, void (*)(cl_program, void *), void *)
{
	API;
	if (!ok(p, fcl::K_PROGRAM, "clBuildProgram")) return CL_INVALID_PROGRAM;
	if (fcl::api_fault("clBuildProgram")) { if (p->from_binary) fcl::tl_build_faults++; return fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY, CL_BUILD_PROGRAM_FAILURE, CL_COMPILER_NOT_AVAILABLE}); }
	std::vector<cl_device_id> dv = n ? std::vector<cl_device_id>(d, d + n) : p->devs;
	for (auto x : dv) {
		if (!p->b.count(x)) return CL_INVALID_DEVICE;
		Build &b = p->b[x];
		b.opts = opts ? opts : "";
		if (p->from_binary) {
			if (fcl::bin_fault()) { b.st = CL_BUILD_ERROR; return fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY, CL_BUILD_PROGRAM_FAILURE, CL_COMPILER_NOT_AVAILABLE, CL_INVALID_BINARY, CL_INVALID_BUILD_OPTIONS, CL_INVALID_OPERATION, CL_INVALID_PROGRAM}); }
			if (!fcl::load_binary(x, b.bin, b.ident, b.so)) { fault("binary-rejected"); b.st = CL_BUILD_ERROR; return CL_BUILD_PROGRAM_FAILURE; }
			fcl::binary_builds++;
			event("build-binary", fcl::hash_str(b.ident, 3));
		} else {
			b.so = fcl::compile(p->src, b.opts, b.log);
			if (b.so.empty()) { b.st = CL_BUILD_ERROR; return CL_BUILD_PROGRAM_FAILURE; }
			if (!fcl::kernel_args.count(b.so)) fcl::kernel_args[b.so] = fcl::arg_sizes(p->src);
			b.ident = fcl::ident_of(x, p->src, b.opts);
			b.bin = fcl::make_binary(x, p->src, b.opts, b.so); b.has_bin = true;
			fcl::source_builds++;
			event("build-source", fcl::hash_str(b.ident, 3));
		}
		b.st = CL_BUILD_SUCCESS;
	}
	return CL_SUCCESS;
}
cl_int clGetProgramInfo(cl_program p, cl_program_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(p, fcl::K_PROGRAM, "clGetProgramInfo")) return CL_INVALID_PROGRAM;
	if (fcl::api_fault("clGetProgramInfo")) { fcl::tl_build_faults++; return fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}); }
	cl_uint nd = p->devs.size();
	std::vector<size_t> sizes;
	switch (k) {
	case CL_PROGRAM_NUM_DEVICES: return KINFO(nd);
	case CL_PROGRAM_DEVICES: return fcl::info_out(p->devs.data(), nd * sizeof(cl_device_id), sz, val, ret);
	case CL_PROGRAM_CONTEXT: return KINFO(p->ctx);
	case CL_PROGRAM_BINARY_SIZES:
		for (auto d : p->devs) sizes.push_back(p->b[d].has_bin ? p->b[d].bin.size() : 0);
		return fcl::info_out(sizes.data(), sizes.size() * sizeof(size_t), sz, val, ret);
	case CL_PROGRAM_BINARIES:
		if (val) {
			if (sz < nd * sizeof(void *)) return CL_INVALID_VALUE;
			for (cl_uint i = 0; i < nd; i++) { Build &b = p->b[p->devs[i]]; if (((uint8_t **)val)[i] && b.has_bin) memcpy(((uint8_t **)val)[i], b.bin.data(), b.bin.size()); }
		}
		if (ret) *ret = nd * sizeof(void *);
		return CL_SUCCESS;
	}
	return CL_INVALID_VALUE;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id d, cl_program_build_info k, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(p, fcl::K_PROGRAM, "clGetProgramBuildInfo")) return CL_INVALID_PROGRAM;
	if (fcl::api_fault("clGetProgramBuildInfo")) { fcl::tl_build_faults++; return CL_OUT_OF_HOST_MEMORY; }
	if (!p->b.count(d)) return CL_INVALID_DEVICE;
	Build &b = p->b[d];
	if (k == CL_PROGRAM_BUILD_LOG) return fcl::info_str(b.log, sz, val, ret);
	if (k == CL_PROGRAM_BUILD_STATUS) return KINFO(b.st);
	if (k == CL_PROGRAM_BUILD_OPTIONS) return fcl::info_str(b.opts, sz, val, ret);
	return CL_INVALID_VALUE;
}
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *err)
{
	API;
	cl_int dummy; if (!err) err = &dummy;
	*err = CL_SUCCESS;
	if (!ok(p, fcl::K_PROGRAM, "clCreateKernel")) { *err = CL_INVALID_PROGRAM; return nullptr; }
	if (fcl::api_fault("clCreateKernel")) { *err = fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY}); return nullptr; }
	bool built = false;
	for (auto &kv : p->b) if (kv.second.st == CL_BUILD_SUCCESS) { built = true; fcl::last_program = kv.second.ident; }
	if (!built) { *err = CL_INVALID_PROGRAM_EXECUTABLE; return nullptr; }
	if (strcmp(name, "decompress")) { *err = CL_INVALID_KERNEL_NAME; return nullptr; }
	auto k = fcl::reg(new _cl_kernel(), fcl::K_KERNEL);
	k->prog = p; k->name = name;
	return k;
}
cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info q, size_t sz, void *val, size_t *ret)
{
	API;
	if (!ok(k, fcl::K_KERNEL, "clGetKernelInfo")) return CL_INVALID_KERNEL;
	cl_uint n = 9;
	if (q == CL_KERNEL_NUM_ARGS) return KINFO(n);
	if (q == CL_KERNEL_FUNCTION_NAME) return fcl::info_str(k->name, sz, val, ret);
	return CL_INVALID_VALUE;
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void *v)
{
	API;
	if (!ok(k, fcl::K_KERNEL, "clSetKernelArg")) return CL_INVALID_KERNEL;
	if (i >= 12) return CL_INVALID_ARG_INDEX;
	if (n != 8 && n != 4) return CL_INVALID_ARG_SIZE;
	for (auto &b : k->prog->b) {
		auto as = fcl::kernel_args.find(b.second.so);
		if (as == fcl::kernel_args.end() || as->second.empty()) continue;
		if (i >= as->second.size()) return CL_INVALID_ARG_INDEX;
		if (as->second[i] && as->second[i] != n) return CL_INVALID_ARG_SIZE;
	}
	if (fcl::api_fault("clSetKernelArg")) return fcl::e({CL_OUT_OF_RESOURCES, CL_OUT_OF_HOST_MEMORY});
	std::vector<uint8_t> a(8, 0);
	if (v) memcpy(a.data(), v, n);
	k->args[i] = a;
	return CL_SUCCESS;
}
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *off, const size_t *g, const size_t *l, cl_uint nw, const cl_event *w, cl_event *ev)
{
	API;
	if (!queue_ok(q, "clEnqueueNDRangeKernel")) return CL_INVALID_COMMAND_QUEUE;
	if (!ok(k, fcl::K_KERNEL, "clEnqueueNDRangeKernel")) return CL_INVALID_KERNEL;
	if (dim != 1) return CL_INVALID_WORK_DIMENSION;
	if (!g || g[0] == 0) return CL_INVALID_GLOBAL_WORK_SIZE;
	if (l && (l[0] == 0 || g[0] % l[0])) return CL_INVALID_WORK_GROUP_SIZE;
	if (l && l[0] > 1024) return CL_INVALID_WORK_GROUP_SIZE;
	Build &b = k->prog->b[q->dev];
	if (b.st != CL_BUILD_SUCCESS) return CL_INVALID_PROGRAM_EXECUTABLE;
	if (fcl::api_fault("clEnqueueNDRangeKernel")) return fcl::e({CL_OUT_OF_RESOURCES, CL_MEM_OBJECT_ALLOCATION_FAILURE, CL_OUT_OF_HOST_MEMORY, CL_INVALID_WORK_GROUP_SIZE});
	if (b.ident == "damaged") violate("damaged-program", "a program loaded from a damaged cache is executed");
	auto c = new Cmd();
	c->type = 0; c->so = b.so; c->gsize = g[0];
	for (unsigned i = 0; i < 9; i++) {
		if (!k->args.count(i)) { delete c; return CL_INVALID_KERNEL_ARGS; }
		uint64_t v; memcpy(&v, k->args[i].data(), 8);
		for (auto o : fcl::all_objects)
			if ((uint64_t)o == v) {
				if (o->kind != fcl::K_MEM) { delete c; return CL_INVALID_ARG_VALUE; }
				cl_mem m = (cl_mem)o;
				if (o->refs <= 0) violate("cl-use-after-release", "kernel argument %u is a released buffer", i);
				c->mems.push_back(m);
				v = (uint64_t)m->p;
				break;
			}
		c->args.push_back(v);
	}
	if (off && off[0]) return CL_INVALID_GLOBAL_OFFSET;
	return fcl::submit(q, c, nw, w, ev);
}
} // extern "C"
