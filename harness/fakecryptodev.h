// The simulated kernel crypto device: /dev/crypto, its sessions and requests, and failing system calls.
#pragma once
#include "../sim/sim.h"
#include <lib842/sw.h>
#include <crypto/cryptodev.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <string>
using namespace sim;

// ------------------------------------------------------------------ device
static int FD0 = 1000000; // 0: the application has closed its standard input, and the device gets its number
struct File { bool open, cloexec; int tid; std::map<uint32_t, bool> sessions; };
static std::deque<File> files; // references stay valid
static uint32_t next_session = 0x100;
static uint16_t dev_alignmask;
static bool dev_present = true, faults_on;
static uint32_t fault_den = 6;
static __thread int tl_faults;      // faults that hit the current call of this thread
static __thread int tl_errno;       // error of the first failed request of the current call
static int failed(int e) { if (!tl_errno) tl_errno = e; errno = e; return -1; }
static int open_files, sessions_ever;
static uint64_t dev_faults; // failures of requests a call depends on, of all threads
// what the device computes with
typedef int (*engine_fn)(const uint8_t *, size_t, uint8_t *, size_t *);
static engine_fn engine_compress = sw842_compress, engine_decompress = sw842_decompress;

static bool sys_fault(const char *name)
{
	User u; NoFault nf;
	sync_point(name, 0);
	if (!faults_on || !chance("sysfault", 1, fault_den)) return false;
	std::string n = std::string(name) + "-fails";
	fault(n.c_str());
	tl_faults++; dev_faults++;
	return true;
}
static int err_of(const char *stream, std::initializer_list<int> l) { return *(l.begin() + pick(stream, l.size())); }
static File *file_of(int fd) { return fd >= FD0 && fd < FD0 + (int)files.size() ? &files[fd - FD0] : nullptr; }
static File *use_fd(int fd, const char *what)
{
	File *f = file_of(fd);
	if (!f) violate("bad-descriptor", "%s on descriptor %d, which was never opened", what, fd);
	if (!f->open) violate("used-after-close", "%s on descriptor %d after it was closed", what, fd);
	if (f->tid != tl_tid) violate("foreign-session", "%s by thread %d on the descriptor of thread %d", what, tl_tid, f->tid);
	return f;
}

// what the call in progress on this thread asked for (where the harness knows it)
static bool know_asked;
static thread_local struct { size_t n; const uint8_t *src; uint8_t *dst; size_t in_total, out_total; const size_t *ilens, *olens; } asked;

extern "C" {
int __real_open(const char *, int, ...);
int __real_close(int);
int __real_access(const char *, int);
int __wrap_open(const char *path, int flags, ...)
{
	va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
	if (strcmp(path, "/dev/crypto")) return __real_open(path, flags, mode);
	if (sys_fault("open")) return failed(err_of("openerr", {EMFILE, ENFILE, EACCES, EINTR, ENOMEM, ENODEV}));
	if (!dev_present) { tl_faults++; dev_faults++; return failed(ENOENT); }
	User u; NoFault nf;
	for (auto &f : files) if (f.open && f.tid == tl_tid) violate("second-session", "thread %d opens the device again while its descriptor is open", tl_tid);
	files.push_back(File{true, false, tl_tid, {}});
	open_files++;
	int fd = FD0 + (int)files.size() - 1;
	event("open", fd - FD0, tl_tid);
	sync_point("opened", 0);
	return fd;
}
int __wrap_close(int fd)
{
	if (!file_of(fd)) { if (tl_lib) violate("bad-descriptor", "close of descriptor %d, which was never opened", fd); return __real_close(fd); }
	bool bad = sys_fault("close");
	File *f = use_fd(fd, "close");
	for (auto &x : f->sessions) if (x.second) violate("session-leaked", "descriptor closed while session %u on it is still open", x.first);
	f->open = false; open_files--;
	event("close", fd - FD0, tl_tid);
	if (bad) { errno = err_of("closeerr", {EIO, EINTR}); return -1; }
	return 0;
}
// what is printed may change errno (stderr closed, or on a full disk)
int __wrap_fprintf(FILE *f, const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap);
	if (tl_tid >= 0 && tl_lib && f == stderr && faults_on && chance("stderr", 1, 4)) {
		fault("printing-fails");
		errno = err_of("stderrerr", {EBADF, ENOSPC, EIO});
		return -1;
	}
	return r;
}
int __wrap_access(const char *path, int mode)
{
	if (strcmp(path, "/dev/crypto")) return __real_access(path, mode);
	sync_point("access", 0);
	if (!dev_present) { errno = ENOENT; return -1; }
	return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
	File *f = use_fd(fd, "fcntl");
	if (sys_fault("fcntl")) return failed(err_of("fcntlerr", {EBADF, EINVAL, EINTR}));
	if (cmd == F_SETFD) f->cloexec = true;
	return 0;
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	req &= 0xffffffff;
	if (req == CIOCGSESSION) {
		File *f = use_fd(fd, "CIOCGSESSION");
		struct session_op *s = (struct session_op *)arg;
		if (sys_fault("session")) return failed(err_of("seserr", {ENOMEM, EINVAL, ENOENT, EINTR, EBUSY}));
		if (s->compr != CRYPTO_842) { tl_faults++; return failed(EINVAL); }
		if (s->cipher || s->mac) violate("bad-request", "session asked for with cipher %u and hash %u", s->cipher, s->mac);
		User u; NoFault nf;
		s->ses = next_session++;
		f->sessions[s->ses] = true; sessions_ever++;
		event("session", s->ses, tl_tid);
		return 0;
	}
#ifdef CIOCGSESSINFO
	if (req == CIOCGSESSINFO) {
		File *f = use_fd(fd, "CIOCGSESSINFO");
		struct session_info_op *s = (struct session_info_op *)arg;
		if (!f->sessions.count(s->ses) || !f->sessions[s->ses]) violate("bad-session", "CIOCGSESSINFO for session %u, which is not open on descriptor %d", s->ses, fd - FD0);
		if (sys_fault("sessinfo")) return failed(err_of("infoerr", {EFAULT, EINVAL, ENOMEM}));
		s->alignmask = dev_alignmask;
		return 0;
	}
#endif
	if (req == CIOCFSESSION) {
		File *f = use_fd(fd, "CIOCFSESSION");
		uint32_t ses = *(uint32_t *)arg;
		if (!f->sessions.count(ses)) violate("bad-session", "CIOCFSESSION for session %u, which does not belong to descriptor %d", ses, fd - FD0);
		if (!f->sessions[ses]) violate("session-closed-twice", "session %u is closed twice", ses);
		bool bad = sys_fault("finish");
		f->sessions[ses] = false;
		event("finish", ses, tl_tid);
		if (bad) { errno = err_of("finerr", {EINVAL, EINTR}); return -1; }
		return 0;
	}
	if (req == CIOCCRYPT) {
		File *f = use_fd(fd, "CIOCCRYPT");
		struct crypt_op *c = (struct crypt_op *)arg;
		if (!f->sessions.count(c->ses)) violate("bad-session", "request for session %u, which does not belong to descriptor %d", c->ses, fd - FD0);
		if (!f->sessions[c->ses]) violate("used-after-close", "request on closed session %u", c->ses);
		if (sys_fault("crypt")) return failed(err_of("crypterr", {EIO, EINVAL, ENOMEM, EINTR, EBUSY, EFAULT, ETIMEDOUT}));
		if (((uintptr_t)c->src | (uintptr_t)c->dst) & dev_alignmask) violate("misaligned-request", "request with buffers %p/%p although the device needs alignment %d", c->src, c->dst, dev_alignmask + 1);
		if (c->op != COP_ENCRYPT && c->op != COP_DECRYPT) { tl_faults++; return failed(EINVAL); }
		if (c->numchunks > CRYPTODEV_COMP_MAX_CHUNKS) violate("bad-request", "request with %u chunks", c->numchunks);
		if (c->flags) violate("bad-request", "request with flags %x", c->flags);
		sync_point("crypt-start", 0);
		User u; NoFault nf;
		size_t is = c->numchunks ? c->len / c->numchunks : 0, os = c->numchunks ? c->dlen / c->numchunks : 0;
		// the request says what the caller said
		if (know_asked && (asked.n != c->numchunks || asked.src != c->src || asked.dst != c->dst || asked.in_total != c->len || asked.out_total != c->dlen))
			violate("bad-request", "request of %u chunks, %u and %u bytes, for a call about %zu chunks, %zu and %zu bytes", c->numchunks, c->len, c->dlen, asked.n, asked.in_total, asked.out_total);
		for (uint32_t i = 0; know_asked && i < c->numchunks; i++)
			if (asked.ilens[i] != (c->chunklens[i] == UINT32_MAX ? SIZE_MAX : c->chunklens[i]) || asked.olens[i] != c->chunkdlens[i])
				violate("bad-request", "chunk %u: request for %u and %u bytes, but the call said %zu and %zu", i, c->chunklens[i], c->chunkdlens[i], asked.ilens[i], asked.olens[i]);
		for (uint32_t i = 0; i < c->numchunks; i++) {
			if (c->chunklens[i] == UINT32_MAX) { probe("skipped-chunk"); continue; }
			if (i % 4 == 3) sync_point("crypt-chunk", i);
			if (!f->open || !f->sessions[c->ses]) violate("used-after-close", "session closed while a request runs on it");
			size_t ol = c->chunkdlens[i];
			c->chunkrets[i] = c->op == COP_ENCRYPT ? engine_compress(c->src + i * is, c->chunklens[i], c->dst + i * os, &ol)
						       : engine_decompress(c->src + i * is, c->chunklens[i], c->dst + i * os, &ol);
			c->chunkdlens[i] = (uint32_t)ol;
		}
		sync_point("crypt-end", 0);
		event("crypt", c->ses, c->numchunks, tl_tid);
		return 0;
	}
	use_fd(fd, "ioctl");
	violate("bad-request", "unknown request %lx", req);
}
}

