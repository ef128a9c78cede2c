// The seams of the Python world: file system, clock, sleeping, randomness and the resolver.
// Preloaded into the interpreter; does nothing until it is switched on.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netdb.h>
#include <poll.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_RENAME, OP_UNLINK, OP_LINK, OP_FSYNC, OP_CHMOD, OP_CLOSE, OP_SYMLINK, OP_FAULT, OP_NET, OP_KINDS };
enum { K_OPEN = 0, K_WRITE, K_FSYNC, K_RENAME, K_UNLINK, K_TRUNC, K_CHMOD, K_CLOSE, K_KINDS };

struct rec { uint32_t op; int32_t fd; int64_t a, b; int32_t err; uint32_t l1, l2, who; };

// Shared between everyone who takes part in a run
struct shared {
	uint64_t used, cap;
	int64_t now_ns;
	uint64_t rnd;
	int64_t dns_queries, contacts, sleeps;
	uint64_t steps;
	int64_t bytes, capacity;
	char log[];
};

static int on;
static struct shared* S;
static char root[PATH_MAX];
static size_t rootlen;
static unsigned who;
static int gate_r = -1, gate_w = -1;
static unsigned char tracked[65536];
static long counts[K_KINDS];
static struct { int kind; long nth; int err; int sticky; long fired; } faults[16];
static int nfaults;
static int dns_result = -1, dns_herrno, dns_init; static unsigned char dns_reply[65536]; static int dns_len;
static int64_t dns_delay;

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

static void gate(void) {
	if (gate_w < 0) return;
	char c = 'g';
	int e = errno;
	while (syscall(SYS_write, gate_w, &c, 1) < 0 && errno == EINTR);
	while (syscall(SYS_read, gate_r, &c, 1) < 0 && errno == EINTR);
	errno = e;
}
EXPORT void shim_gate(void) { if (on) gate(); }

static void put(uint32_t op, int fd, int64_t a, int64_t b, int err, const void* p1, size_t l1, const void* p2, size_t l2) {
	if (!S) return;
	size_t need = sizeof(struct rec) + l1 + l2;
	need = (need + 7) & ~7ul;
	if (S->used + need > S->cap) { static const char m[] = "shim: log is full\n"; syscall(SYS_write, 2, m, sizeof(m) - 1); _exit(120); }
	struct rec* r = (struct rec*)(S->log + S->used);
	r->op = op; r->fd = fd; r->a = a; r->b = b; r->err = err; r->l1 = l1; r->l2 = l2; r->who = who;
	if (l1) memcpy((char*)(r + 1), p1, l1);
	if (l2) memcpy((char*)(r + 1) + l1, p2, l2);
	S->used += need;
}
EXPORT void shim_note(int64_t a, const char* text) { if (on) put(OP_NET, -1, a, 0, 0, text, strlen(text), NULL, 0); }

static void tick(void) {
	S->steps++;
	S->rnd = S->rnd * 6364136223846793005ull + 1442695040888963407ull;
	S->now_ns += 1000 + (S->rnd >> 44) % 50000;
}

// Does a fault hit this call? Returns the error code
static long kill_at, hits;
EXPORT void shim_kill_at(long n) { kill_at = n; }
EXPORT long shim_hits(void) { return hits; }
static int hit(int kind) {
	tick();
	gate();
	if (++hits == kill_at) _exit(99);
	long n = ++counts[kind];
	for (int i = 0; i < nfaults; i++) {
		if (faults[i].kind != kind) continue;
		if (n == faults[i].nth || (faults[i].sticky && n > faults[i].nth)) {
			faults[i].fired++;
			put(OP_FAULT, -1, kind, n, faults[i].err, NULL, 0, NULL, 0);
			return faults[i].err;
		}
	}
	return 0;
}

// Makes a path absolute; returns whether it is part of our world
static int resolve(int dirfd, const char* path, char* out) {
	char base[PATH_MAX];
	if (!path) return 0;
	if (path[0] == '/') base[0] = 0;
	else if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof(base))) return 0; }
	else {
		char l[64]; snprintf(l, sizeof(l), "/proc/self/fd/%d", dirfd);
		ssize_t n = readlink(l, base, sizeof(base) - 1);
		if (n < 0) return 0;
		base[n] = 0;
	}
	char full[2 * PATH_MAX];
	snprintf(full, sizeof(full), "%s/%s", base, path);
	// Remove //, . and ..
	size_t o = 0;
	const char* p = full;
	while (*p) {
		while (*p == '/') p++;
		const char* q = p;
		while (*q && *q != '/') q++;
		size_t n = q - p;
		if (n == 1 && p[0] == '.') ;
		else if (n == 2 && p[0] == '.' && p[1] == '.') { while (o && out[--o] != '/'); }
		else if (n && o + n + 2 < PATH_MAX) { out[o++] = '/'; memcpy(out + o, p, n); o += n; }
		p = q;
	}
	out[o] = 0;
	return on && o > rootlen && memcmp(out, root, rootlen) == 0 && out[rootlen] == '/';
}

// ---- control, called from Python
EXPORT void shim_start(struct shared* s, const char* r, unsigned w, int gr, int gw) {
	S = s;
	snprintf(root, sizeof(root), "%s", r);
	rootlen = strlen(root);
	who = w;
	gate_r = gr; gate_w = gw;
	memset(counts, 0, sizeof(counts));
	on = 1;
}
EXPORT void shim_stop(void) { on = 0; }
EXPORT void shim_fault(int kind, long nth, int err, int sticky) {
	if (nfaults >= 16) return;
	faults[nfaults].kind = kind; faults[nfaults].nth = nth; faults[nfaults].err = err; faults[nfaults].sticky = sticky; faults[nfaults].fired = 0;
	nfaults++;
}
EXPORT void shim_faults_clear(void) { nfaults = 0; }
EXPORT long shim_count(int kind) { return counts[kind]; }
EXPORT long shim_fired(void) { long n = 0; for (int i = 0; i < nfaults; i++) n += faults[i].fired; return n; }
EXPORT void shim_track(int fd) { if (fd >= 0 && fd < 65536) tracked[fd] = 1; }
EXPORT void shim_dns(int init, int result, int herr, int64_t delay, const void* reply, int len) {
	dns_init = init; dns_result = result; dns_herrno = herr; dns_delay = delay;
	if (len > (int)sizeof(dns_reply)) len = sizeof(dns_reply);
	memcpy(dns_reply, reply, len);
	dns_len = len;
}
EXPORT void shim_advance(int64_t ns) { if (S) S->now_ns += ns; }
EXPORT int64_t shim_now(void) { return S ? S->now_ns : 0; }

// ---- files
static int do_open(int dirfd, const char* path, int flags, mode_t mode) {
	char p[PATH_MAX];
	int ours = on && resolve(dirfd, path, p);
	if (!ours || !(flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)))
		return syscall(SYS_openat, dirfd, path, flags, mode);
	int e = hit(K_OPEN);
	if (e) { errno = e; return -1; }
	struct stat st;
	int existed = lstat(p, &st) == 0;
	int fd = syscall(SYS_openat, dirfd, path, flags, mode);
	if (fd < 0) return fd;
	if (fd < 65536) tracked[fd] = 1;
	mode_t m = fstat(fd, &st) == 0 ? st.st_mode : 0;
	put(OP_OPEN, fd, flags, existed | (int64_t)m << 1, 0, p, strlen(p), NULL, 0);
	return fd;
}
#define MODE va_list ap; va_start(ap, flags); mode_t mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap)
EXPORT int open(const char* path, int flags, ...) { MODE; return do_open(AT_FDCWD, path, flags, mode); }
EXPORT int open64(const char* path, int flags, ...) { MODE; return do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
EXPORT int openat(int d, const char* path, int flags, ...) { MODE; return do_open(d, path, flags, mode); }
EXPORT int openat64(int d, const char* path, int flags, ...) { MODE; return do_open(d, path, flags | O_LARGEFILE, mode); }
EXPORT int creat(const char* path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_TRUNC | O_WRONLY, mode); }

static int ours(int fd) { return on && fd >= 0 && fd < 65536 && tracked[fd]; }

static off_t position(int fd) {
	int fl = fcntl(fd, F_GETFL);
	if (fl >= 0 && (fl & O_APPEND)) { struct stat st; if (fstat(fd, &st) == 0) return st.st_size; }
	return lseek(fd, 0, SEEK_CUR);
}

static int sealed;                  // signatures are different every time: what is written does not belong into the log
static ssize_t do_write(int fd, const void* buf, size_t n, off_t off, int at) {
	int e = hit(K_WRITE);
	if (e == -1) { if (n > 1) n = n / 2; }          // short write
	else if (e) { errno = e; return -1; }
	if (S->capacity >= 0) {
		if (S->bytes + (int64_t)n > S->capacity) {
			n = S->capacity > S->bytes ? S->capacity - S->bytes : 0;
			put(OP_FAULT, -1, K_WRITE, 0, ENOSPC, NULL, 0, NULL, 0);
			if (!n) { errno = ENOSPC; return -1; }
		}
	}
	off_t pos = at ? off : position(fd);
	ssize_t r = at ? syscall(SYS_pwrite64, fd, buf, n, off) : syscall(SYS_write, fd, buf, n);
	if (r > 0) { S->bytes += r; put(OP_WRITE, fd, pos, r, 0, buf, sealed ? 0 : r, NULL, 0); }
	return r;
}
EXPORT ssize_t write(int fd, const void* buf, size_t n) { return ours(fd) ? do_write(fd, buf, n, 0, 0) : syscall(SYS_write, fd, buf, n); }
EXPORT ssize_t pwrite(int fd, const void* buf, size_t n, off_t off) { return ours(fd) ? do_write(fd, buf, n, off, 1) : syscall(SYS_pwrite64, fd, buf, n, off); }
EXPORT ssize_t pwrite64(int fd, const void* buf, size_t n, off64_t off) { return ours(fd) ? do_write(fd, buf, n, off, 1) : syscall(SYS_pwrite64, fd, buf, n, off); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int c) {
	if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
	ssize_t t = 0;
	for (int i = 0; i < c; i++) {
		if (!v[i].iov_len) continue;
		ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0);
		if (r < 0) return t ? t : r;
		t += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return t;
}
static ssize_t copy_to(int out, int in, off64_t* off, size_t n) {
	char buf[65536];
	if (n > sizeof(buf)) n = sizeof(buf);
	ssize_t r = off ? pread(in, buf, n, *off) : read(in, buf, n);
	if (r <= 0) return r;
	ssize_t w = do_write(out, buf, r, 0, 0);
	if (w < 0) { if (!off) lseek(in, -r, SEEK_CUR); return w; }
	if (off) *off += w; else if (w < r) lseek(in, w - r, SEEK_CUR);
	return w;
}
EXPORT ssize_t sendfile(int out, int in, off_t* off, size_t n) { return ours(out) ? copy_to(out, in, (off64_t*)off, n) : syscall(SYS_sendfile, out, in, off, n); }
EXPORT ssize_t sendfile64(int out, int in, off64_t* off, size_t n) { return ours(out) ? copy_to(out, in, off, n) : syscall(SYS_sendfile, out, in, off, n); }
EXPORT ssize_t copy_file_range(int in, off64_t* io, int out, off64_t* oo, size_t n, unsigned f) {
	if (ours(out) && !oo) return copy_to(out, in, io, n);
	if (ours(out)) { errno = EXDEV; return -1; }
	return syscall(SYS_copy_file_range, in, io, out, oo, n, f);
}

static int do_ftruncate(int fd, off_t len) {
	if (!ours(fd)) return syscall(SYS_ftruncate, fd, len);
	int e = hit(K_TRUNC);
	if (e) { errno = e; return -1; }
	int r = syscall(SYS_ftruncate, fd, len);
	if (!r) put(OP_TRUNC, fd, len, 0, 0, NULL, 0, NULL, 0);
	return r;
}
EXPORT int ftruncate(int fd, off_t len) { return do_ftruncate(fd, len); }
EXPORT int ftruncate64(int fd, off64_t len) { return do_ftruncate(fd, len); }
static int do_truncate(const char* path, off_t len) {
	char p[PATH_MAX];
	if (!resolve(AT_FDCWD, path, p)) return syscall(SYS_truncate, path, len);
	int e = hit(K_TRUNC);
	if (e) { errno = e; return -1; }
	int r = syscall(SYS_truncate, path, len);
	if (!r) put(OP_TRUNC, -1, len, 0, 0, p, strlen(p), NULL, 0);
	return r;
}
EXPORT int truncate(const char* path, off_t len) { return do_truncate(path, len); }
EXPORT int truncate64(const char* path, off64_t len) { return do_truncate(path, len); }
EXPORT int posix_fallocate(int fd, off_t off, off_t len) { if (ours(fd)) return EOPNOTSUPP; return syscall(SYS_fallocate, fd, 0, off, len) ? errno : 0; }
EXPORT int posix_fallocate64(int fd, off64_t off, off64_t len) { return posix_fallocate(fd, off, len); }

// Every directory below our root is a file system of its own
static int crosses(const char* p, const char* q) {
	const char *a = p + rootlen + 1, *b = q + rootlen + 1;
	size_t n = strcspn(a, "/"), m = strcspn(b, "/");
	return n != m || memcmp(a, b, n) != 0;
}

static int do_rename(int d1, const char* a, int d2, const char* b, unsigned flags) {
	char p[PATH_MAX], q[PATH_MAX];
	int oa = on && resolve(d1, a, p), ob = on && resolve(d2, b, q);
	if (!oa && !ob) return flags ? syscall(SYS_renameat2, d1, a, d2, b, flags) : syscall(SYS_renameat, d1, a, d2, b);
	int e = hit(K_RENAME);
	if (e) { errno = e; return -1; }
	if (!oa || !ob || crosses(p, q)) { errno = EXDEV; return -1; }
	int r = flags ? syscall(SYS_renameat2, d1, a, d2, b, flags) : syscall(SYS_renameat, d1, a, d2, b);
	if (!r) put(OP_RENAME, -1, flags, 0, 0, p, strlen(p), q, strlen(q));
	return r;
}
EXPORT int rename(const char* a, const char* b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d1, const char* a, int d2, const char* b) { return do_rename(d1, a, d2, b, 0); }
EXPORT int renameat2(int d1, const char* a, int d2, const char* b, unsigned f) { return do_rename(d1, a, d2, b, f); }

static int do_unlink(int d, const char* path, int flags) {
	char p[PATH_MAX];
	if (!on || !resolve(d, path, p)) return syscall(SYS_unlinkat, d, path, flags);
	int e = hit(K_UNLINK);
	if (e) { errno = e; return -1; }
	int r = syscall(SYS_unlinkat, d, path, flags);
	if (!r && !(flags & AT_REMOVEDIR)) put(OP_UNLINK, -1, 0, 0, 0, p, strlen(p), NULL, 0);
	return r;
}
EXPORT int unlink(const char* p) { return do_unlink(AT_FDCWD, p, 0); }
EXPORT int unlinkat(int d, const char* p, int f) { return do_unlink(d, p, f); }
EXPORT int remove(const char* p) { return do_unlink(AT_FDCWD, p, 0); }

static int do_link(int d1, const char* a, int d2, const char* b, int flags) {
	char p[PATH_MAX], q[PATH_MAX];
	int oa = on && resolve(d1, a, p), ob = on && resolve(d2, b, q);
	if (!oa && !ob) return syscall(SYS_linkat, d1, a, d2, b, flags);
	int e = hit(K_RENAME);
	if (e) { errno = e; return -1; }
	if (!oa || !ob || crosses(p, q)) { errno = EXDEV; return -1; }
	int r = syscall(SYS_linkat, d1, a, d2, b, flags);
	if (!r) put(OP_LINK, -1, 0, 0, 0, p, strlen(p), q, strlen(q));
	return r;
}
EXPORT int link(const char* a, const char* b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int linkat(int d1, const char* a, int d2, const char* b, int f) { return do_link(d1, a, d2, b, f); }
EXPORT int symlinkat(const char* t, int d, const char* path) {
	char p[PATH_MAX];
	int o = on && resolve(d, path, p);
	if (o) hit(K_RENAME);
	int r = syscall(SYS_symlinkat, t, d, path);
	if (o && !r) put(OP_SYMLINK, -1, 0, 0, 0, p, strlen(p), t, strlen(t));
	return r;
}
EXPORT int symlink(const char* t, const char* path) { return symlinkat(t, AT_FDCWD, path); }

static int do_fsync(int fd, int nr) {
	if (!ours(fd)) return syscall(nr, fd);
	int e = hit(K_FSYNC);
	if (e) { errno = e; return -1; }
	put(OP_FSYNC, fd, 0, 0, 0, NULL, 0, NULL, 0);
	return 0;                                           // nobody is going to pull the plug for real
}
EXPORT int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }
EXPORT int syncfs(int fd) { if (!on) return syscall(SYS_syncfs, fd); put(OP_FSYNC, -1, 0, 0, 0, NULL, 0, NULL, 0); return 0; }
EXPORT void sync(void) { if (!on) { syscall(SYS_sync); return; } put(OP_FSYNC, -1, 0, 0, 0, NULL, 0, NULL, 0); }

EXPORT int chmod(const char* path, mode_t m) {
	char p[PATH_MAX];
	if (on && resolve(AT_FDCWD, path, p)) {
		int e = hit(K_CHMOD);
		if (e) { errno = e; return -1; }
		int r = syscall(SYS_fchmodat, AT_FDCWD, path, m);
		if (!r) put(OP_CHMOD, -1, m, 0, 0, p, strlen(p), NULL, 0);
		return r;
	}
	return syscall(SYS_fchmodat, AT_FDCWD, path, m);
}
EXPORT int fchmod(int fd, mode_t m) {
	if (ours(fd)) {
		int e = hit(K_CHMOD);
		if (e) { errno = e; return -1; }
		put(OP_CHMOD, fd, m, 0, 0, NULL, 0, NULL, 0);
	}
	return syscall(SYS_fchmod, fd, m);
}

EXPORT int close(int fd) {
	if (!ours(fd)) return syscall(SYS_close, fd);
	int e = hit(K_CLOSE);
	tracked[fd] = 0;
	int r = syscall(SYS_close, fd);
	put(OP_CLOSE, fd, 0, 0, 0, NULL, 0, NULL, 0);
	if (e) { errno = e; return -1; }
	return r;
}

// ---- streams that write (libloc's writer)
struct stream { FILE* f; int fd; };
static struct stream streams[64];
static ssize_t s_read(void* c, char* b, size_t n) { return syscall(SYS_read, ((struct stream*)c)->fd, b, n); }
static ssize_t s_write(void* c, const char* b, size_t n) {
	size_t t = 0;
	while (t < n) {
		sealed++;
		ssize_t r = write(((struct stream*)c)->fd, b + t, n - t);
		sealed--;
		if (r <= 0) return t;
		t += r;
	}
	return t;
}
static int s_seek(void* c, off64_t* o, int w) {
	off_t r = lseek(((struct stream*)c)->fd, *o, w);
	if (r < 0) return -1;
	*o = r;
	return 0;
}
static int s_close(void* c) { struct stream* s = c; int fd = s->fd; s->f = NULL; return close(fd); }
static FILE* do_fopen(const char* path, const char* mode) {
	char p[PATH_MAX];
	if (!on || (!strchr(mode, '+') && *mode == 'r') || !resolve(AT_FDCWD, path, p)) {
		static FILE* (*f)(const char*, const char*);
		if (!f) f = dlsym(RTLD_NEXT, "fopen");
		return f(path, mode);
	}
	struct stream* s = streams;
	while (s < streams + 64 && s->f) s++;
	if (s == streams + 64) { errno = EMFILE; return NULL; }
	int flags = strchr(mode, '+') ? O_RDWR : O_WRONLY;
	if (*mode == 'w') flags |= O_CREAT | O_TRUNC;
	if (*mode == 'a') flags |= O_CREAT | O_APPEND;
	if (strchr(mode, 'x')) flags |= O_EXCL;
	if (strchr(mode, 'e')) flags |= O_CLOEXEC;
	int fd = do_open(AT_FDCWD, path, flags, 0666);
	if (fd < 0) return NULL;
	s->fd = fd;
	cookie_io_functions_t io = { s_read, s_write, s_seek, s_close };
	s->f = fopencookie(s, mode, io);
	if (!s->f) close(fd);
	return s->f;
}
EXPORT FILE* fopen(const char* path, const char* mode) { return do_fopen(path, mode); }
EXPORT FILE* fopen64(const char* path, const char* mode) { return do_fopen(path, mode); }
static int do_fileno(FILE* f, const char* name) {
	if (f) for (struct stream* s = streams; s < streams + 64; s++) if (s->f == f) return s->fd;
	int (*g)(FILE*) = dlsym(RTLD_NEXT, name);
	return g(f);
}
EXPORT int fileno(FILE* f) { return do_fileno(f, "fileno"); }
EXPORT int fileno_unlocked(FILE* f) { return do_fileno(f, "fileno_unlocked"); }

// ---- clock
// with threads, the interpreter looks at the clock whenever it likes to
static int still;
EXPORT void shim_still(int v) { still = v; }
static void now(struct timespec* ts) { if (!still) tick(); ts->tv_sec = S->now_ns / 1000000000; ts->tv_nsec = S->now_ns % 1000000000; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; } }
EXPORT int clock_gettime(clockid_t c, struct timespec* ts) { if (!on) return syscall(SYS_clock_gettime, c, ts); now(ts); return 0; }
EXPORT time_t time(time_t* t) {
	struct timespec ts;
	if (!on) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); else now(&ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
EXPORT int gettimeofday(struct timeval* tv, void* tz) {
	struct timespec ts;
	if (!on) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); else now(&ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
static void nap(int64_t ns) { gate(); S->sleeps++; S->now_ns += ns; }
EXPORT int nanosleep(const struct timespec* a, struct timespec* b) {
	if (!on) return syscall(SYS_nanosleep, a, b);
	nap(a->tv_sec * 1000000000ll + a->tv_nsec);
	return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) {
	if (!on) return syscall(SYS_clock_nanosleep, c, f, a, b) ? errno : 0;
	int64_t t = a->tv_sec * 1000000000ll + a->tv_nsec;
	if (f & TIMER_ABSTIME) t -= S->now_ns;
	if (t > 0) nap(t);
	return 0;
}
EXPORT int usleep(useconds_t u) { struct timespec t = { u / 1000000, u % 1000000 * 1000 }; return nanosleep(&t, NULL); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = { s, 0 }; nanosleep(&t, NULL); return 0; }

// ---- randomness
static void fill(unsigned char* b, size_t n) {
	for (size_t i = 0; i < n; i++) { S->rnd = S->rnd * 6364136223846793005ull + 1442695040888963407ull; b[i] = S->rnd >> 56; }
}
EXPORT ssize_t getrandom(void* b, size_t n, unsigned f) { if (!on) return syscall(SYS_getrandom, b, n, f); fill(b, n); return n; }
EXPORT int getentropy(void* b, size_t n) { if (!on) return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; fill(b, n); return 0; }

// ---- network: nothing leaves this process
EXPORT int __res_init(void) { return on ? dns_init : 0; }
static int query(const char* name, int cls, int type, unsigned char* answer, int anslen) {
	if (on) { gate(); S->dns_queries++; S->now_ns += dns_delay; put(OP_NET, -1, 1, type, 0, name, strlen(name), NULL, 0); }
	h_errno = dns_herrno;
	if (!on || dns_result < 0) { h_errno = on ? dns_herrno : 2; return -1; }
	memcpy(answer, dns_reply, dns_len < anslen ? dns_len : anslen);
	return dns_result;
}
EXPORT int res_query(const char* name, int cls, int type, unsigned char* answer, int anslen) { return query(name, cls, type, answer, anslen); }
EXPORT int __res_query(const char* name, int cls, int type, unsigned char* answer, int anslen) { return query(name, cls, type, answer, anslen); }
EXPORT int res_search(const char* name, int cls, int type, unsigned char* answer, int anslen) { return query(name, cls, type, answer, anslen); }
EXPORT int connect(int fd, const struct sockaddr* a, socklen_t l) {
	if (on) {
		if (a && a->sa_family != AF_UNIX) S->contacts++;
		errno = ECONNREFUSED;
		return -1;
	}
	return syscall(SYS_connect, fd, a, l);
}
EXPORT int getaddrinfo(const char* n, const char* s, const struct addrinfo* h, struct addrinfo** r) {
	if (on) { S->contacts++; return EAI_AGAIN; }
	int (*f)(const char*, const char*, const struct addrinfo*, struct addrinfo**) = dlsym(RTLD_NEXT, "getaddrinfo");
	return f(n, s, h, r);
}
