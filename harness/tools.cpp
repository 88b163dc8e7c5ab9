// The programs that come with the library - the kernel embedding tool and the two
// round-trip programs - as whole processes: simulated files, clock, threads and team.
#include "../sim/sim.h"
#include <lib842/common.h>
#include <lib842/sw.h>
#include <lib842/stream/common.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <thread>
#include <vector>
using namespace sim;
typedef std::string Str;
static const size_t CHUNK = 65536;

// C++ allocations of the programs do not fail (the programs do not claim to handle it); those they check do
void *operator new(size_t n) { NoFault nf; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

// ------------------------------------------------------------------ files
struct File { std::string *data; size_t pos; bool wr, open; size_t full_at; std::string name; };
static std::map<std::string, std::string> *fs;
static File files[16]; static int nfiles;
static unsigned fault_den; static uint64_t io_faults; // faults the program has to report
static const char *last_fault = "";
static bool io_fault(const char *what) { if (!fault_den || !rare(what, 2, 1, fault_den)) return false; fault(what); io_faults++; last_fault = what; return true; }
static bool is_fake(FILE *f) { return (File *)f >= files && (File *)f < files + 16; }
static bool active; // the program under simulation is running
extern "C" {
FILE *__real_fopen(const char *, const char *); FILE *__real_fopen64(const char *, const char *); int __real_fclose(FILE *); int __real_fseek(FILE *, long, int); long __real_ftell(FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fileno(FILE *); int __real_setvbuf(FILE *, char *, int, size_t); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int); off64_t __real_lseek64(int, off64_t, int); int __real_gettimeofday(struct timeval *, void *); char *__real_getenv(const char *);
static FILE *fake_open(const char *name, const char *mode)
{
	User u; NoFault nf;
	sync_point("open", 0);
	bool wr = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
	event("open", wr);
	if (io_fault("open-fails")) { static const int e[] = {ENOENT, EACCES, EMFILE, EIO}; errno = e[pick("openerr", 4)]; return nullptr; }
	if (!wr && !fs->count(name)) { io_faults++; last_fault = "file does not exist"; errno = ENOENT; return nullptr; }
	if (nfiles == 16) violate("harness", "too many files");
	File &f = files[nfiles++];
	f.name = name; f.data = &(*fs)[name]; f.pos = 0; f.wr = wr; f.open = true; f.full_at = SIZE_MAX;
	if (wr) { f.data->clear(); if (fault_den && rare("diskfull", 2, 1, fault_den)) { f.full_at = pick("fullat", 20000); } }
	return (FILE *)&f;
}
FILE *__wrap_fopen(const char *n, const char *m) { return active ? fake_open(n, m) : __real_fopen(n, m); }
FILE *__wrap_fopen64(const char *n, const char *m) { return active ? fake_open(n, m) : __real_fopen64(n, m); }
int __wrap_fclose(FILE *fp)
{
	if (!is_fake(fp)) return __real_fclose(fp);
	File &f = *(File *)fp;
	if (!f.open) violate("use-after-close", "fclose of a closed file");
	f.open = false;
	if (f.wr && io_fault("close-fails")) { size_t lost = f.data->size() < 100 ? f.data->size() : 100; f.data->resize(f.data->size() - (lost ? pick("lost", lost + 1) : 0)); errno = EIO; return EOF; }
	return 0;
}
static File &live(FILE *fp, const char *what) { File &f = *(File *)fp; if (!f.open) violate("use-after-close", "%s of a closed file", what); return f; }
int __wrap_fseek(FILE *fp, long off, int wh)
{
	if (!is_fake(fp)) return __real_fseek(fp, off, wh);
	File &f = live(fp, "fseek");
	if (io_fault("seek-fails")) { errno = ESPIPE; return -1; }
	f.pos = (wh == SEEK_SET ? 0 : wh == SEEK_END ? f.data->size() : f.pos) + off;
	return 0;
}
static unsigned change_den;
long __wrap_ftell(FILE *fp)
{
	if (!is_fake(fp)) return __real_ftell(fp);
	File &f = live(fp, "ftell");
	if (io_fault("tell-fails")) { errno = EOVERFLOW; return -1; }
	long r = f.pos;
	// somebody else changes the file between its measurement and its reading
	if (change_den && rare("filechange", 2, 1, change_den)) {
		User u; NoFault nf;
		if (pick("grow", 2)) { fault("file-grows"); f.data->append(1 + pick("by", 100000), 'g'); }
		else if (f.data->size()) { fault("file-shrinks"); io_faults++; last_fault = "file shrank"; f.data->resize(f.data->size() - 1 - pick("by", f.data->size())); }
	}
	return r;
}
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *fp)
{
	if (!is_fake(fp)) return __real_fread(p, s, n, fp);
	File &f = live(fp, "fread");
	size_t want = s * n, have = f.pos < f.data->size() ? f.data->size() - f.pos : 0, k = want < have ? want : have;
	if (want && io_fault("read-fails")) { k = k ? pick("readgot", k) : 0; errno = EIO; }
	memcpy(p, f.data->data() + f.pos, k);
	f.pos += k;
	return s ? k / s : 0;
}
int __wrap_fileno(FILE *fp) { return is_fake(fp) ? 5000 + (int)((File *)fp - files) : __real_fileno(fp); }
int __wrap_setvbuf(FILE *fp, char *b, int m, size_t n) { return is_fake(fp) ? 0 : __real_setvbuf(fp, b, m, n); }
static File &by_fd(int fd, const char *what) { return live((FILE *)&files[fd - 5000], what); }
ssize_t __wrap_read(int fd, void *p, size_t n)
{
	if (fd < 5000) return __real_read(fd, p, n);
	File &f = by_fd(fd, "read");
	sync_point("read", fd);
	if (fault_den && rare("eintr", 2, 1, fault_den)) { fault("interrupted"); errno = EINTR; return -1; }
	if (io_fault("read-fails")) { errno = EIO; return -1; }
	size_t have = f.pos < f.data->size() ? f.data->size() - f.pos : 0, k = n < have ? n : have;
	if (k > 1 && fault_den && rare("shortread", 2, 1, fault_den)) { fault("short-read"); k = 1 + pick("got", k - 1); }
	memcpy(p, f.data->data() + f.pos, k);
	f.pos += k;
	return k;
}
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
	if (fd < 5000) return __real_write(fd, p, n);
	User u; NoFault nf;
	File &f = by_fd(fd, "write");
	sync_point("write", fd);
	if (!n) return 0;
	if (fault_den && rare("eintr", 2, 1, fault_den)) { fault("interrupted"); errno = EINTR; return -1; }
	if (io_fault("write-fails")) { errno = EIO; return -1; }
	size_t room = f.data->size() < f.full_at ? f.full_at - f.data->size() : 0, k = n < room ? n : room;
	if (!k) { fault("disk-full"); io_faults++; last_fault = "disk full"; errno = ENOSPC; return -1; }
	if (k > 1 && fault_den && rare("shortwrite", 2, 1, fault_den)) { fault("short-write"); k = 1 + pick("put", k - 1); }
	f.data->append((const char *)p, k);
	return k;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int n)
{
	if (fd < 5000) return __real_writev(fd, v, n);
	ssize_t done = 0;
	for (int i = 0; i < n; i++) {
		ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return done ? done : r;
		done += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return done;
}
off64_t __wrap_lseek64(int fd, off64_t o, int wh)
{
	if (fd < 5000) return __real_lseek64(fd, o, wh);
	File &f = by_fd(fd, "lseek");
	f.pos = (wh == SEEK_SET ? 0 : wh == SEEK_END ? f.data->size() : f.pos) + o;
	return f.pos;
}
// what the programs print goes nowhere
static bool said_success;
static void note(const char *fmt) { if (strstr(fmt, "was successful")) said_success = true; }
int __wrap_printf(const char *fmt, ...) { if (active) { note(fmt); return 0; } va_list a; va_start(a, fmt); int r = vprintf(fmt, a); va_end(a); return r; }
int __real_puts(const char *); int __real_putchar(int);
int __wrap_puts(const char *s) { if (!active) return __real_puts(s); note(s); return 0; }
int __wrap_putchar(int c) { return active ? c : __real_putchar(c); }
int __wrap_fprintf(FILE *f, const char *fmt, ...) { if (active) return 0; va_list a; va_start(a, fmt); int r = vfprintf(f, fmt, a); va_end(a); return r; }
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { return active && !is_fake(f) ? n : __real_fwrite(p, s, n, f); }
// the wall clock may be set at any time
static int64_t clock_shift; static bool clock_jumps;
int __wrap_gettimeofday(struct timeval *tv, void *z)
{
	int r = __real_gettimeofday(tv, z);
	if (clock_jumps && rare("clockjump", 2, 1, 3)) { fault("clock-jumps"); static const int64_t j[] = {-3600, 3600, -1, 1, -86400 * 365, 0}; clock_shift += j[pick("jump", 6)]; }
	tv->tv_sec += clock_shift;
	return r;
}
static char env_threads[16], env_spread; static bool has_threads;
char *__wrap_getenv(const char *n)
{
	if (!active) return __real_getenv(n);
	if (!strcmp(n, "COMPDECOMP_NUM_THREADS")) return has_threads ? env_threads : nullptr;
	if (!strcmp(n, "COMPDECOMP_NUMA_SPREAD")) return nullptr;
	return nullptr;
}
static int ncpus;
int get_nprocs(void) noexcept { return ncpus; }
}

// ------------------------------------------------------------------ the 842 implementation the programs use
static uint64_t fastmix(uint64_t x) { x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; return x; }
static void gen(uint64_t tag, uint8_t *p) { uint64_t *w = (uint64_t *)p; w[0] = tag; for (size_t j = 1; j < CHUNK / 8; j++) w[j] = fastmix(tag + j); }
static bool tagged(const uint8_t *p)
{
	const uint64_t *w = (const uint64_t *)p;
	if ((w[0] & 0xffff) != 0x5742) return false;
	for (size_t j = 1; j < CHUNK / 8; j++) if (w[j] != fastmix(w[0] + j)) return false;
	return true;
}
static bool zero(const uint8_t *p, size_t n) { return !n || (!p[0] && !memcmp(p, p + 1, n - 1)); }
struct Blob { uint64_t magic, tag, check; };
static const uint64_t MAGIC = 0x746f6f6c73383432ull;
static uint64_t codec_faults; static unsigned codec_den;
static bool codec_fault(const char *what) { if (!codec_den || !rare(what, 2, 1, codec_den)) return false; fault(what); codec_faults++; last_fault = what; return true; }
static int one(bool dec, const uint8_t *in, size_t n, uint8_t *out, size_t *ol)
{
	User u; NoFault nf;
	sync_point(dec ? "decompress" : "compress", 0);
	if (codec_fault(dec ? "decompress-fails" : "compress-fails")) return -(int[]){EIO, EINVAL, ENOMEM, EBUSY}[pick("err", 4)];
	Blob b;
	// (nothing differs when a chunk of zeros is left as it was: the programs start from cleared memory)
	bool zeros = dec && n == sizeof b && (memcpy(&b, in, sizeof b), b.magic == MAGIC && !b.tag);
	if (dec && !zeros && codec_fault("decompress-says-full")) return -ENOSPC;
	if (!dec && n == CHUNK && (tagged(in) || zero(in, n) || *ol <= n)) {
		if (tagged(in)) { memcpy(&b.tag, in, 8); }
		else if (zero(in, n)) b.tag = 0;
		else return -ENOSPC;
		b.magic = MAGIC; b.check = fastmix(b.tag ^ MAGIC);
		if (*ol < sizeof b) return -ENOSPC;
		memcpy(out, &b, sizeof b); *ol = sizeof b;
		return 0;
	}
	int r = 0;
	if (dec && n == sizeof b && (memcpy(&b, in, sizeof b), b.magic == MAGIC)) {
		if (b.check != fastmix(b.tag ^ MAGIC)) return -EINVAL;
		if (*ol < CHUNK) return -ENOSPC;
		if (b.tag) gen(b.tag, out); else memset(out, 0, CHUNK);
		*ol = CHUNK;
	} else r = (dec ? get_optsw842_implementation()->decompress : get_optsw842_implementation()->compress)(in, n, out, ol);
	if (dec && !r && *ol && codec_fault("decompress-lies")) out[pick("lie", *ol)] ^= 1 << pick("liebit", 8);
	return r;
}
static int comp1(const uint8_t *in, size_t n, uint8_t *out, size_t *ol) { return one(false, in, n, out, ol); }
static int dec1(const uint8_t *in, size_t n, uint8_t *out, size_t *ol) { return one(true, in, n, out, ol); }
static int many(bool dec, size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol)
{
	int r = 0;
	for (size_t i = 0; i < n; i++) {
		if (il[i] == SIZE_MAX) continue;
		rets[i] = one(dec, in + i * is, il[i], out + i * os, &ol[i]);
		if (!r && rets[i] && rets[i] != -ENOSPC) r = rets[i];
	}
	return r;
}
static int compn(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) { return many(false, n, rets, in, is, il, out, os, ol); }
static int decn(size_t n, int *rets, const uint8_t *in, size_t is, const size_t *il, uint8_t *out, size_t os, size_t *ol) { return many(true, n, rets, in, is, il, out, os, ol); }
static lib842_implementation impl842 = {comp1, dec1, compn, decn, 1, 8};
extern "C" const lib842_implementation *sample_sw842_implementation() { return &impl842; }

// ------------------------------------------------------------------ OpenMP team
static int team;
static __thread int omp_id;
extern "C" {
struct Job { void (*f)(int *, int *, ...); void *a[16]; int id; int lib; };
static void call(Job *j) { omp_id = j->id; int g = j->id, b = j->id; void **a = j->a; j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]); }
static void *member(void *p) { Job *j = (Job *)p; tl_lib = j->lib; call(j); return nullptr; }
void __kmpc_fork_call(void *, int argc, void (*f)(int *, int *, ...), ...)
{
	Job j[8]; pthread_t t[8]; void *a[16] = {};
	va_list ap; va_start(ap, f);
	if (argc > 16) violate("harness", "parallel region with %d variables", argc);
	for (int i = 0; i < argc; i++) a[i] = va_arg(ap, void *);
	va_end(ap);
	for (int k = 0; k < team; k++) { j[k].f = f; memcpy(j[k].a, a, sizeof a); j[k].id = k; j[k].lib = tl_lib; }
	{ NoFault nf; User u; for (int k = 1; k < team; k++) pthread_create(&t[k], nullptr, member, &j[k]); }
	call(&j[0]);
	{ NoFault nf; User u; for (int k = 1; k < team; k++) pthread_join(t[k], nullptr); }
	omp_id = 0;
}
int __kmpc_global_thread_num(void *) { return omp_id; }
void __kmpc_for_static_init_8u(void *, int, int, int *last, uint64_t *lo, uint64_t *hi, int64_t *stride, int64_t, int64_t)
{
	uint64_t n = *hi - *lo + 1, b = *lo, per = n / team, rest = n % team;
	uint64_t start = b + omp_id * per + ((uint64_t)omp_id < rest ? omp_id : rest), cnt = per + ((uint64_t)omp_id < rest);
	*last = cnt && start + cnt == b + n;
	*lo = start; *hi = start + cnt - 1; *stride = n;
	if (!cnt) { *lo = 1; *hi = 0; }
}
void __kmpc_for_static_init_8(void *i, int g, int s, int *last, int64_t *lo, int64_t *hi, int64_t *st, int64_t inc, int64_t ch) { __kmpc_for_static_init_8u(i, g, s, last, (uint64_t *)lo, (uint64_t *)hi, st, inc, ch); if (*lo == 1 && !*hi) { *lo = 1; *hi = 0; } }
void __kmpc_for_static_fini(void *, int) {}
void __kmpc_barrier(void *, int) { violate("harness", "barrier inside a parallel region"); }
}

// ------------------------------------------------------------------ programs
int streams_run(int, char **);
int cl2c_run(int, char **);
extern "C" int omp_main(int, const char **);
extern "C" const char *const real_kernel;

// the value of the string constant in a C++ definition `const char *NAME = "..." "..." ;`
static bool parse_c(const std::string &s, const std::string &name, std::string &out)
{
	size_t i = 0; out.clear();
	auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) i++; };
	auto lit = [&](const char *t) { ws(); size_t n = strlen(t); if (s.compare(i, n, t)) return false; i += n; return true; };
	if (!lit("const") || !lit("char") || !lit("*")) return false;
	lit("const");
	if (!lit(name.c_str()) || !lit("=")) return false;
	bool any = false;
	for (;;) {
		ws();
		if (i < s.size() && s[i] == '"') {
			any = true; i++;
			for (;;) {
				if (i >= s.size() || s[i] == '\n') return false;
				if (s[i] == '"') { i++; break; }
				if (s[i] == '\\') {
					if (++i >= s.size()) return false;
					char c = s[i++];
					const char *from = "ntrabfv\\\"'?", *to = "\n\t\r\a\b\f\v\\\"'?", *q = strchr(from, c);
					if (c && q) out += to[q - from];
					else if (c == 'x') { int v = 0; if (i >= s.size() || !isxdigit((unsigned char)s[i])) return false; while (i < s.size() && isxdigit((unsigned char)s[i])) v = v * 16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10), i++; out += (char)v; }
					else if (c >= '0' && c <= '7') { int v = c - '0'; for (int k = 0; k < 2 && i < s.size() && s[i] >= '0' && s[i] <= '7'; k++) v = v * 8 + s[i++] - '0'; out += (char)v; }
					else return false;
				} else out += s[i++];
			}
		} else break;
	}
	if (!any || !lit(";")) return false;
	ws();
	return i == s.size();
}

static int status; static bool threw;
static int kind;
static const char *arg;
static void program()
{
	Lib l;
	try {
		if (kind == 0) { const char *a[] = {"compdecomp_streams", arg, nullptr}; status = streams_run(arg ? 2 : 1, (char **)a); }
		else if (kind == 1) { const char *a[] = {"compdecomp", arg, nullptr}; status = omp_main(arg ? 2 : 1, a); }
		else { const char *a[] = {"cl2c", "input.cl", "output.c", "kernelSource", nullptr}; status = cl2c_run(4, (char **)a); }
	} catch (const std::exception &) { threw = true; status = 134; }
}

static void c24()
{
	set_sched_params(300 + pick("memden", 3000), 1, 1 + pick("syncden", 5));
	set_step_budget(400000, 8000000);
	race_detection(true);
	fs = new std::map<std::string, std::string>;
	kind = pick("program", 3);
	static const char *const names[] = {"compdecomp_streams", "compdecomp", "cl2c"};
	bool faulty = pick("faulty", 3) > 0;
	if (faulty) {
		if (kind == 2 || chance("iofaults", 1, 2)) fault_den = (kind == 2 ? 4 : 8) + pick("ioden", 24);
		if (kind != 2) {
			if (chance("codecfaults", 1, 2)) codec_den = 4 + pick("codecden", 120);
			if (chance("allocs", 1, 3)) { alloc_num = 1; alloc_den = 1 + pick("allocden", 12); }
			if (chance("filechanges", 1, 4)) change_den = 2;
		}
		inject_thread_create = kind == 0 && chance("threads", 1, 5);
	}
	clock_jumps = chance("clock", 1, 3);
	ncpus = pick("cpus", 5); // 0: unknown
	has_threads = chance("env", 1, 2);
	static const char *const tv[] = {"1", "2", "3", "5", "8", "0", "x", "-3", ""};
	strcpy(env_threads, tv[pick("envthreads", 9)]);
	team = 1 + pick("team", 6);
	impl842.preferred_alignment = (size_t[]){8, 1, 4096, 128}[pick("align", 4)];
	std::string &input = (*fs)["input.cl"];
	bool missing = false;
	std::string text;
	if (kind == 2) {
		if (chance("realkernel", 1, 4)) text = real_kernel;
		else {
			static const char *const bits[] = {"\n", "\\", "\"", "\\n", "\\\"", "\t", "//", "/*", "#define X \\\n", "a", "?", "' '", "\r", "\xff", "__kernel void f() {}", "\xc3\xa4"};
			for (int k = pick("pieces", 400); k > 0; k--) text += bits[data64(k, 5) % 16];
			if (chance("long", 1, 4)) text += std::string(pick("longlen", 30000), 'y') + "\n";
		}
		input = text;
		arg = "input.cl";
		missing = faulty && rare("missing", 2, 1, 10);
		if (missing) { fault("input-missing"); fs->erase("input.cl"); }
		sample("cl2c, %zu bytes", text.size());
	} else {
		size_t n;
		switch (pick("size", 5)) {
		case 0: arg = nullptr; n = 0; break;
		case 1: n = 1 + pick("small", 3000); break;
		case 2: n = CHUNK * (1 + pick("chunks", 40)); break;
		case 3: n = (1 << 20) * (1 + pick("mbs", 3)) + (size_t)pick("delta", 3) - 1; break;
		default: n = 1 + pick("any", 2600000);
		}
		if (arg || n) arg = "file";
		std::string d(n, 0);
		for (size_t k = 0; k * CHUNK < n; k++) {
			alignas(8) static uint8_t c[CHUNK]; uint64_t r = data64(k, 9);
			switch (r % 5) {
			case 0: memset(c, 0, CHUNK); break;
			case 1: { uint64_t *w = (uint64_t *)c; for (size_t j = 0; j < CHUNK / 8; j++) w[j] = fastmix(r ^ j * 0x12345); w[0] &= ~0xffffull; break; }
			default: gen((mix64(r) & ~0xffffull) | 0x5742, c);
			}
			memcpy(&d[k * CHUNK], c, n - k * CHUNK < CHUNK ? n - k * CHUNK : CHUNK);
		}
		if (arg) { (*fs)["file"] = d; missing = faulty && rare("missing", 2, 1, 12); if (missing) { fault("input-missing"); fs->erase("file"); } }
		sample("%s, %s, %zu bytes", names[kind], arg ? "a file" : "the test string", n);
	}
	active = true;
	std::thread t(program);
	t.join();
	active = false;
	bool fault_hit = io_faults || codec_faults || alloc_failures() || missing || threw;
	event("status", status, fault_hit);
	state(mix64(kind ^ (uint64_t)status << 8 ^ (uint64_t)(io_faults > 0) << 20 ^ (uint64_t)(codec_faults > 0) << 21 ^ (uint64_t)(alloc_failures() > 0) << 22 ^ (uint64_t)ncpus << 30 ^ (uint64_t)team << 40 ^ (uint64_t)nfiles << 50 ^ (uint64_t)threw << 60 ^ fastmix(arg && fs->count(arg) ? (*fs)[arg].size() >> 18 : 0)));
	if (fault_hit) nontrivial();
	if (kind != 2 && (ncpus > 1 || team > 1)) nontrivial();
	if (threw) { if (!inject_thread_create && !fault_hit) violate("crash", "an exception nobody caught"); if (kind != 2 && !inject_thread_create) violate("crash", "an exception nobody caught"); probe("ended-by-exception"); }
	if (!status && fault_hit) violate("false-success", "%s reports success although something failed (%s%s)", names[kind], last_fault, alloc_failures() ? ", out of memory" : "");
	if (status && !fault_hit && !(kind != 2 && arg && (*fs)[arg].empty())) violate("spurious-failure", "%s ends with status %d although nothing failed", names[kind], status);
	if (kind != 2 && said_success != !status) violate("false-success", "%s prints that it %s but ends with status %d", names[kind], said_success ? "was successful" : "was not", status);
	if (kind == 2 && !status) {
		std::string got;
		if (!fs->count("output.c") || !parse_c((*fs)["output.c"], "kernelSource", got)) violate("wrong-output", "cl2c's output is not the definition of a string");
		if (got != text) violate("wrong-output", "cl2c's output defines a string of %zu bytes that differs from the %zu bytes of the source", got.size(), text.size());
		probe("embedded");
	}
	if (kind != 2 && !status) probe("round-trip");
	for (int k = 0; k < nfiles; k++) if (files[k].open) violate("file-left-open", "%s left open", files[k].name.c_str());
	if (!threw && kind != 2 && lib_live_count()) violate("leak", "%llu allocation(s) left: %s", (unsigned long long)lib_live_count(), lib_live_describe().c_str());
}
namespace sim {
const Scenario scenarios[] = {{"C24", c24, nullptr, nullptr}};
const int num_scenarios = 1;
}
