// Simulated file system for the OpenCL program cache: paths under /tmp/cl842* lead to
// a scratch directory of this process; operations fail, are short, or are lost.
#pragma once
#include "../sim/sim.h"
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <string>
#include <vector>

namespace disk {
using namespace sim;
static const char PREFIX[] = "/tmp/cl842";
static std::string dir;
static bool on;
static uint32_t den;             // 0: healthy; otherwise one in den operations fails
static bool readonly_;           // nothing can be written
static uint64_t crash_after;     // 0: never; otherwise the process dies at this mutating operation
static bool crashed;
static uint64_t mutations, faults_hit;
static uint8_t is_open[4096];    // descriptors of simulated files (2: opened for writing)

static void start()
{
	char b[64];
	snprintf(b, sizeof b, "cldisk-%d", getppid());
	dir = b;
	mkdir(b, 0700);
	if (DIR *d = opendir(b)) {
		while (struct dirent *e = readdir(d)) {
			std::string p = dir + "/" + e->d_name;
			if (e->d_name[0] != '.') { if (unlink(p.c_str())) rmdir(p.c_str()); }
		}
		closedir(d);
	}
	on = true;
}
static std::string real_path(const char *p) { std::string b(p + 5); for (auto &c : b) if (c == '/') c = '_'; return dir + "/" + b; }
static bool mine(const char *p) { return on && p && !strncmp(p, PREFIX, sizeof(PREFIX) - 1); }
static bool fd_mine(int fd) { return on && fd >= 0 && fd < 4096 && is_open[fd]; }
// an operation of the running process reaches the disk: does it fail?
static bool fails(const char *what, bool mutating)
{
	User u; NoFault nf;
	sync_point(what, 0);
	if (mutating) {
		mutations++;
		if (crash_after && mutations >= crash_after && !crashed) { crashed = true; fault("crash"); event("crash", mutations); }
		if (readonly_) { faults_hit++; return true; }
	}
	if (!den || !chance("disk", 1, den)) return false;
	fault((std::string("disk-") + what + "-fails").c_str());
	faults_hit++;
	return true;
}
static int err(std::initializer_list<int> l) { return *(l.begin() + pick("diskerr", l.size())); }
static std::vector<uint8_t> slurp(const std::string &p)
{
	std::vector<uint8_t> r;
	int fd = syscall(SYS_open, p.c_str(), O_RDONLY);
	if (fd < 0) return r;
	uint8_t b[4096]; ssize_t n;
	while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) r.insert(r.end(), b, b + n);
	syscall(SYS_close, fd);
	return r;
}
static void spit(const std::string &p, const std::vector<uint8_t> &d)
{
	int fd = syscall(SYS_open, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0) return;
	if (!d.empty()) (void)!syscall(SYS_write, fd, d.data(), d.size());
	syscall(SYS_close, fd);
}
static std::vector<std::string> list()
{
	std::vector<std::string> r;
	if (DIR *d = opendir(dir.c_str())) {
		while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') r.push_back(dir + "/" + e->d_name);
		closedir(d);
	}
	return r;
}
template <typename F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static FILE *open_file(const char *path, const char *mode, const char *name)
{
	typedef FILE *(*fn)(const char *, const char *);
	static fn f = real<fn>("fopen");
	(void)name;
	if (!mine(path)) return f(path, mode);
	bool wr = strpbrk(mode, "wa+") != nullptr;
	if (fails(wr ? "open-for-writing" : "open-for-reading", wr)) { errno = readonly_ && wr ? err({EROFS, EACCES}) : err({EACCES, EIO, EMFILE, ENFILE, ENOMEM, EINTR}); return nullptr; }
	User u; NoFault nf;
	FILE *r = f(crashed && wr ? "/dev/null" : real_path(path).c_str(), mode);
	if (r) { int fd = fileno(r); if (fd < 4096) is_open[fd] = wr ? 2 : 1; }
	event(wr ? "open-w" : "open-r", r != nullptr);
	return r;
}
static int open_fd(const char *path, int flags, int mode)
{
	if (!mine(path)) return syscall(SYS_open, path, flags, mode);
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	if (fails(wr ? "open-for-writing" : "open-for-reading", wr)) { errno = err({EACCES, EIO, EMFILE, ENOMEM, EROFS}); return -1; }
	int fd = syscall(SYS_open, crashed && wr ? "/dev/null" : real_path(path).c_str(), crashed && wr ? O_WRONLY : flags, mode);
	if (fd >= 0 && fd < 4096) is_open[fd] = wr ? 2 : 1;
	event(wr ? "open-w" : "open-r", fd >= 0);
	return fd;
}
static ssize_t write_some(int fd, const void *p, size_t n)
{
	if (fails("write", true)) {
		uint64_t k = pick("wrkind", 4);
		if (k == 3 && n > 1) { fault("short-write"); n = 1 + pick("shortw", n - 1); faults_hit--; }
		else { errno = k == 0 ? ENOSPC : k == 1 ? EIO : EDQUOT; return -1; }
	}
	if (crashed) return n;
	ssize_t r = syscall(SYS_write, fd, p, n);
	// a crash in the middle of this write
	if (crash_after && mutations + 1 == crash_after && r > 1 && chance("tornwrite", 1, 2)) {
		off_t back = pick("torn", r);
		int e = ftruncate(fd, lseek(fd, 0, SEEK_CUR) - (r - back)); (void)e;
		crashed = true;
		fault("torn-write");
	}
	return r;
}
} // namespace disk

extern "C" {
FILE *fopen(const char *p, const char *m) { return disk::open_file(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return disk::open_file(p, m, "fopen64"); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return disk::open_fd(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return disk::open_fd(p, fl, m); }
int mkstemp(char *t)
{
	size_t l = strlen(t);
	for (int k = 0; k < 1000; k++) {
		char b[8]; snprintf(b, sizeof b, "%06d", k); memcpy(t + l - 6, b, 6);
		int fd = disk::open_fd(t, O_RDWR | O_CREAT | O_EXCL, 0600);
		if (fd >= 0 || errno != EEXIST) return fd;
	}
	return -1;
}
ssize_t read(int fd, void *p, size_t n)
{
	if (!disk::fd_mine(fd)) return syscall(SYS_read, fd, p, n);
	if (disk::fails("read", false)) {
		if (sim::pick("rdkind", 2) == 0 || n < 2) { errno = disk::err({EIO, EISDIR, ENOMEM}); return -1; }
		n = 1 + sim::pick("shortr", n - 1); // a short read is no error
	}
	return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void *p, size_t n)
{
	if (!disk::fd_mine(fd)) return syscall(SYS_write, fd, p, n);
	return disk::write_some(fd, p, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	if (!disk::fd_mine(fd)) return syscall(SYS_writev, fd, v, c);
	ssize_t t = 0;
	for (int i = 0; i < c; i++) {
		if (!v[i].iov_len) continue;
		ssize_t r = disk::write_some(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return t ? t : r;
		t += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return t;
}
int close(int fd)
{
	if (disk::fd_mine(fd)) {
		bool wr = disk::is_open[fd] == 2;
		disk::is_open[fd] = 0;
		bool bad = disk::fails("close", wr && !disk::readonly_);
		int r = syscall(SYS_close, fd);
		if (bad) { errno = disk::err({EIO, ENOSPC}); return -1; }
		return r;
	}
	return syscall(SYS_close, fd);
}
int fclose(FILE *f)
{
	typedef int (*fn)(FILE *);
	static fn rf = disk::real<fn>("fclose");
	int fd = disk::on ? fileno(f) : -1;
	if (disk::fd_mine(fd)) {
		bool wr = disk::is_open[fd] == 2;
		disk::is_open[fd] = 0;
		bool bad = disk::fails("close", wr && !disk::readonly_);
		int r;
		{ sim::User u; r = rf(f); }
		if (bad) { errno = disk::err({EIO, ENOSPC}); return EOF; }
		return r;
	}
	return rf(f);
}
int rename(const char *a, const char *b)
{
	if (!disk::mine(a) && !disk::mine(b)) return syscall(SYS_rename, a, b);
	if (disk::fails("rename", true)) { errno = disk::err({EIO, EACCES, ENOSPC, EROFS}); return -1; }
	if (disk::crashed) return 0;
	return syscall(SYS_rename, disk::real_path(a).c_str(), disk::real_path(b).c_str());
}
int unlink(const char *a)
{
	if (!disk::mine(a)) return syscall(SYS_unlink, a);
	if (disk::fails("unlink", true)) { errno = disk::err({EIO, EACCES, EROFS}); return -1; }
	if (disk::crashed) return 0;
	return syscall(SYS_unlink, disk::real_path(a).c_str());
}
int remove(const char *a) { return unlink(a); }
int fsync(int fd) { if (disk::fd_mine(fd) && disk::fails("fsync", true)) { errno = EIO; return -1; } return 0; }
}
