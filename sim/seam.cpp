#include "seam.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <netdb.h>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <sanitizer/asan_interface.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rand.h>

const char* const fault_names[F_KINDS] = {
	"alloc", "write", "read", "seek", "close", "mmap", "dup", "fdopen", "lseek", "madvise", "crypto", "full",
};

SimStats stats;
uint64_t event_hash;
bool verbose;
DnsScript dns;
uint64_t sim_edge_cap = 4000ull * 1000 * 1000;

void event(const char* fmt, ...) {
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
	for (int i = 0; i < n; i++) event_hash = (event_hash ^ (unsigned char)buf[i]) * 0x100000001B3ull;
	event_hash = (event_hash ^ 10) * 0x100000001B3ull;
	if (verbose) { fwrite(buf, 1, n, stdout); putchar('\n'); }
}

void violation(const char* tag, const char* fmt, ...) {
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof(buf), fmt, ap);
	va_end(ap);
	throw Violation{tag, buf};
}

// ---------------------------------------------------------------------------
// State of the current run
bool sim_record_contexts;
namespace {
struct Stream { SimFile* file; int fd; bool lib; };
struct Mapping { char* base; size_t total; size_t len; };

std::vector<Fault>* faults;
long counts[F_KINDS];
bool fired_any, fired_error;
uint64_t edges_op;
unsigned char fill;
int64_t now_ns;
Rng clock_rng, rand_rng;

std::unordered_map<void*, size_t>* live;
std::map<ino_t, SimFile*>* files;
std::map<int, SimFile*>* fds;          // descriptors that point to simulated files
std::set<int>* lib_fds;                // those the library has to close
std::unordered_map<FILE*, Stream*>* streams;
std::map<char*, Mapping>* maps;

[[noreturn]] void hang(const char* what) {
	printf("HANG %s\n", what);
	fflush(stdout);
	_exit(77);
}

void tick() {
	stats.seam_calls++;
	int64_t d = 200 + (int64_t)clock_rng.below(20000);
	now_ns += d;
	stats.sim_ns += d;
}

Contexts contexts[F_KINDS];
std::unordered_map<uint64_t, size_t>* chains;       // of callers, by first appearance in the operation
char* stack_top;

__attribute__((no_sanitize("address"), noinline)) uint64_t callers() {
	uint64_t h = 0;
	char* f = (char*)__builtin_frame_address(0);
	for (int i = 0; i < 9 && f; i++) {
		h = mix64(h, (uint64_t)((void**)f)[1]);
		char* n = ((char**)f)[0];
		if (n <= f || n >= stack_top || ((uintptr_t)n & 7)) break;
		f = n;
	}
	return h;
}

void record(FaultKind k, long n) {
	if (!chains) chains = new std::unordered_map<uint64_t, size_t>;
	auto x = chains->emplace(mix64(callers(), k), contexts[k].size());
	if (x.second) contexts[k].emplace_back();
	auto& v = contexts[k][x.first->second];
	if (v.size() < 100) v.push_back(n); else v.back() = n;
}

// Returns the fault that hits this call, if any
Fault* hit(FaultKind k) {
	tick();
	long n = ++counts[k];
	if (sim_record_contexts) record(k, n);
	if (!faults) return nullptr;
	for (auto& f : *faults) {
		if (f.kind != k || k == F_FULL) continue;
		if (n == f.nth || (f.arg == "s" && n > f.nth)) {
			f.fired = true;
			fired_any = true;
			if (f.arg != "short") fired_error = true;
			stats.injected[k]++;
			stats.injected_by[std::string(fault_names[k]) + ":" + f.arg]++;
			event("! %s %ld %s", fault_names[k], n, f.arg.c_str());
			if (f.arg == "s" && ++f.hits > 50000) hang("a call that keeps failing is repeated endlessly");
			return &f;
		}
	}
	return nullptr;
}

int fault_errno(const Fault* f, int dflt) {
	if (f->arg == "EIO") return EIO;
	if (f->arg == "ENOSPC") return ENOSPC;
	if (f->arg == "EINTR") return EINTR;
	if (f->arg == "ENOMEM") return ENOMEM;
	return dflt;
}
}

SimFile::~SimFile() {
	if (files) files->erase(ino);
	if (fds) fds->erase(fd);
	if (fd >= 0) close(fd);
}

size_t SimFile::size() const { struct stat st; fstat(fd, &st); return st.st_size; }

std::string SimFile::bytes() const {
	std::string s(size(), 0);
	size_t o = 0;
	while (o < s.size()) {
		ssize_t r = pread(fd, &s[o], s.size() - o, o);
		if (r <= 0) break;
		o += r;
	}
	return s;
}

void SimFile::set(const std::string& b) {
	if (ftruncate(fd, 0)) abort();
	size_t o = 0;
	while (o < b.size()) {
		ssize_t r = pwrite(fd, b.data() + o, b.size() - o, o);
		if (r <= 0) abort();
		o += r;
	}
}

std::shared_ptr<SimFile> sim_file_new() {
	static int next = 0;
	auto f = std::make_shared<SimFile>();
	f->id = next++;
	f->fd = memfd_create("sim", MFD_CLOEXEC);
	if (f->fd < 0) { perror("memfd_create"); _exit(3); }
	struct stat st;
	fstat(f->fd, &st);
	f->ino = st.st_ino;
	(*files)[f->ino] = f.get();
	return f;
}

// ---------------------------------------------------------------------------
// Streams: what glibc does between stdio and the system calls, with faults
static ssize_t cookie_read(void* c, char* buf, size_t n) {
	Stream* s = (Stream*)c;
	Fault* f = hit(F_READ);
	if (f) {
		if (f->arg == "short") n = n > 1 ? 1 + mix64(n, counts[F_READ]) % n : n;
		else { errno = fault_errno(f, EIO); return -1; }
	}
	ssize_t r = read(s->fd, buf, n);
	return r;
}

static ssize_t cookie_write(void* c, const char* buf, size_t n) {
	Stream* s = (Stream*)c;
	size_t done = 0;
	// The C library repeats short writes until everything is written or an error comes back
	while (done < n) {
		Fault* f = hit(F_WRITE);
		size_t want = n - done;
		if (f) {
			if (f->arg == "short") want = want > 1 ? 1 + mix64(want, counts[F_WRITE]) % want : want;
			else if (f->arg == "torn") {
				// some of it gets written and then the next attempt fails
				want = mix64(want, counts[F_WRITE]) % want;
			} else { errno = fault_errno(f, EIO); return done; }
		}
		if (s->file->capacity >= 0) {
			off_t pos = lseek(s->fd, 0, SEEK_CUR);
			if (pos + (off_t)want > s->file->capacity) {
				counts[F_FULL]++;
				fired_any = fired_error = true;
				stats.injected[F_FULL]++;
				stats.injected_by["full:ENOSPC"]++;
				event("! full %ld", (long)pos);
				want = pos < s->file->capacity ? (size_t)(s->file->capacity - pos) : 0;
				if (!want) { errno = ENOSPC; return done; }
			}
		}
		if (want) {
			off_t pos = lseek(s->fd, 0, SEEK_CUR);
			if (s->file->logging)
				s->file->log.push_back({pos, std::string(buf + done, want)});
			ssize_t r = write(s->fd, buf + done, want);
			if (r != (ssize_t)want) { perror("memfd write"); _exit(3); }
			done += want;
		}
		if (f && f->arg == "torn") { errno = EIO; return done; }
	}
	return done;
}

static int cookie_seek(void* c, off64_t* off, int whence) {
	Stream* s = (Stream*)c;
	Fault* f = hit(F_SEEK);
	if (f) { errno = fault_errno(f, EIO); return -1; }
	off_t r = lseek(s->fd, *off, whence);
	if (r < 0) return -1;
	*off = r;
	return 0;
}

static int cookie_close(void* c) {
	Stream* s = (Stream*)c;
	Fault* f = hit(F_CLOSE);
	fds->erase(s->fd);
	if (s->lib) lib_fds->erase(s->fd);
	close(s->fd);
	delete s;
	if (f) { errno = fault_errno(f, EIO); return -1; }
	return 0;
}

static FILE* make_stream(SimFile* file, int fd, const char* mode, bool lib) {
	Stream* s = new Stream{file, fd, lib};
	cookie_io_functions_t io = { cookie_read, cookie_write, cookie_seek, cookie_close };
	FILE* f = fopencookie(s, mode, io);
	if (!f) { delete s; return nullptr; }
	(*streams)[f] = s;
	return f;
}

FILE* sim_stream(SimFile* file, const char* mode, long bufsize) {
	char path[64];
	snprintf(path, sizeof(path), "/proc/self/fd/%d", file->fd);
	int fd = open(path, O_RDWR | O_CLOEXEC);
	if (fd < 0) { perror("open"); _exit(3); }
	if (mode[0] == 'w' && ftruncate(fd, 0)) _exit(3);
	(*fds)[fd] = file;
	// truncating has been done here
	FILE* f = make_stream(file, fd, mode[0] == 'w' ? "r+" : mode, false);
	if (!f) _exit(3);
	if (bufsize == 0) setvbuf(f, nullptr, _IONBF, 0);
	else if (bufsize > 0) setvbuf(f, nullptr, _IOFBF, bufsize);
	return f;
}

int sim_stream_close(FILE* f) {
	streams->erase(f);
	return fclose(f);
}

// ---------------------------------------------------------------------------
void sim_reset(uint64_t seed) {
	if (!live) {
		live = new std::unordered_map<void*, size_t>;
		files = new std::map<ino_t, SimFile*>;
		fds = new std::map<int, SimFile*>;
		lib_fds = new std::set<int>;
		streams = new std::unordered_map<FILE*, Stream*>;
		maps = new std::map<char*, Mapping>;
	}
	live->clear();
	for (int fd : std::vector<int>(lib_fds->begin(), lib_fds->end())) close(fd);
	lib_fds->clear();
	fds->clear();
	streams->clear();
	for (auto& m : *maps) {
		__asan_unpoison_memory_region(m.second.base, m.second.total);
		munmap(m.second.base, m.second.total);
	}
	maps->clear();
	clock_rng = Rng(mix64(seed, 11));
	rand_rng = Rng(mix64(seed, 12));
	fill = (unsigned char)(mix64(seed, 13) | 1);
	now_ns = 1700000000ll * 1000000000ll;
	event_hash = 0xcbf29ce484222325ull;
	faults = nullptr;
	memset(counts, 0, sizeof(counts));
	fired_any = fired_error = false;
	edges_op = 0;
	dns = DnsScript();
	ERR_clear_error();
	errno = 0;
}

__attribute__((noinline)) void sim_op_begin(std::vector<Fault>* f) {
	if (sim_record_contexts) {
		if (chains) chains->clear();
		for (auto& c : contexts) c.clear();
		stack_top = (char*)__builtin_frame_address(0);
	}
	faults = f;
	memset(counts, 0, sizeof(counts));
	fired_any = fired_error = false;
	edges_op = 0;
	errno = 0;
}

void sim_op_end() {
	faults = nullptr;
	if (edges_op > stats.max_edges_op) stats.max_edges_op = edges_op;
}

bool sim_fault_fired() { return fired_any; }
bool sim_error_fault_fired() { return fired_error; }
const Contexts& sim_op_contexts(int k) { return contexts[k]; }
const long* sim_op_counts() { return counts; }

int64_t sim_clock_ns() { return now_ns; }
void sim_clock_set(int64_t ns) { now_ns = ns; }
void sim_clock_add(int64_t ns) { now_ns += ns; if (ns > 0) stats.sim_ns += ns; }

SimLeaks sim_live() {
	SimLeaks l = {0, 0, 0, 0, 0};
	for (auto& p : *live) { l.allocs++; l.bytes += p.second; }
	l.fds = lib_fds->size();
	for (auto& s : *streams) if (s.second->lib) l.streams++;
	l.maps = maps->size();
	return l;
}

// ---------------------------------------------------------------------------
// Deterministic step counting and coverage of the library
static uint32_t guards_total;
static std::vector<unsigned char>* edge_hits;

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
	if (start == stop || *start) return;
	for (uint32_t* p = start; p < stop; p++) *p = ++guards_total;
}

extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
	static unsigned char* hits;
	if (!hits) {
		edge_hits = new std::vector<unsigned char>(guards_total + 1);
		hits = edge_hits->data();
	}
	hits[*guard] = 1;
	stats.edges++;
	if (++edges_op > sim_edge_cap) hang("too many steps in one operation");
}

size_t sim_edges_total() { return guards_total; }
size_t sim_edges_hit() {
	size_t n = 0;
	if (edge_hits) for (auto c : *edge_hits) n += c;
	return n;
}
void sim_edges_dump(const char* path) {
	FILE* f = fopen(path, "w");
	if (!f) return;
	if (edge_hits) for (size_t i = 0; i < edge_hits->size(); i++) if ((*edge_hits)[i]) fprintf(f, "%zu\n", i);
	fclose(f);
}

// ---------------------------------------------------------------------------
// The seams themselves. objcopy redirects the library's references to these.
extern "C" {

void* sim_malloc(size_t n) {
	if (hit(F_ALLOC)) { errno = ENOMEM; return nullptr; }
	void* p = malloc(n);
	if (p) { memset(p, fill, n); (*live)[p] = n; }
	return p;
}

void* sim_calloc(size_t a, size_t b) {
	if (hit(F_ALLOC)) { errno = ENOMEM; return nullptr; }
	void* p = calloc(a, b);
	if (p) (*live)[p] = a * b;
	return p;
}

void* sim_realloc(void* o, size_t n) {
	if (hit(F_ALLOC)) { errno = ENOMEM; return nullptr; }
	size_t old = 0;
	if (o) { auto i = live->find(o); if (i != live->end()) old = i->second; }
	void* p = realloc(o, n);
	if (p) {
		if (o) live->erase(o);
		if (n > old) memset((char*)p + old, fill, n - old);
		(*live)[p] = n;
	} else if (!n && o) live->erase(o);
	return p;
}

void* sim_reallocarray(void* o, size_t a, size_t b) {
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	return sim_realloc(o, n);
}

void sim_free(void* p) {
	tick();
	if (p) live->erase(p);
	free(p);
}

char* sim_strndup(const char* s, size_t max) {
	size_t n = strnlen(s, max);
	char* p = (char*)sim_malloc(n + 1);
	if (p) { memcpy(p, s, n); p[n] = 0; }
	return p;
}

char* sim_strdup(const char* s) {
	size_t n = strlen(s);
	char* p = (char*)sim_malloc(n + 1);
	if (p) memcpy(p, s, n + 1);
	return p;
}

int sim_vasprintf(char** out, const char* fmt, va_list ap) {
	if (hit(F_ALLOC)) { errno = ENOMEM; *out = nullptr; return -1; }
	int r = vasprintf(out, fmt, ap);
	if (r >= 0) (*live)[*out] = r + 1;
	return r;
}

int sim_asprintf(char** out, const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vasprintf(out, fmt, ap);
	va_end(ap);
	return r;
}

// The library formats each byte it hashes, which is slow; these are the same, only faster
int sim_sprintf(char* out, const char* fmt, ...) {
	static const char hex[] = "0123456789abcdef";
	va_list ap;
	va_start(ap, fmt);
	int r;
	if (!strcmp(fmt, " %02x")) {
		unsigned v = va_arg(ap, unsigned) & 0xff;
		out[0] = ' '; out[1] = hex[v >> 4]; out[2] = hex[v & 15]; out[3] = 0;
		r = 3;
	} else if (!strcmp(fmt, "   ")) {
		memcpy(out, "   ", 4);
		r = 3;
	} else {
		r = vsprintf(out, fmt, ap);
	}
	va_end(ap);
	return r;
}

int sim_fileno(FILE* f) {
	tick();
	auto i = streams->find(f);
	if (i != streams->end()) return i->second->fd;
	return fileno(f);
}

int sim_dup(int fd) {
	if (hit(F_DUP)) { errno = EMFILE; return -1; }
	int n = dup(fd);
	if (n >= 0) {
		auto i = fds->find(fd);
		if (i != fds->end()) (*fds)[n] = i->second;
		lib_fds->insert(n);
	}
	return n;
}

int sim_close(int fd) {
	tick();
	fds->erase(fd);
	lib_fds->erase(fd);
	return close(fd);
}

FILE* sim_fdopen(int fd, const char* mode) {
	if (hit(F_FDOPEN)) { errno = ENOMEM; return nullptr; }
	auto i = fds->find(fd);
	if (i == fds->end()) return fdopen(fd, mode);
	return make_stream(i->second, fd, mode, true);
}

int sim_fclose(FILE* f) {
	streams->erase(f);
	return fclose(f);
}

off_t sim_lseek(int fd, off_t off, int whence) {
	Fault* f = hit(F_LSEEK);
	if (f) { errno = fault_errno(f, EIO); return -1; }
	return lseek(fd, off, whence);
}

void* sim_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
	Fault* f = hit(F_MMAP);
	if (f) { errno = fault_errno(f, ENOMEM); return MAP_FAILED; }
	if (!len || fds->find(fd) == fds->end() || addr) return mmap(addr, len, prot, flags, fd, off);
	size_t page = 4096, body = (len + page - 1) / page * page;
	char* base = (char*)mmap(nullptr, body + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (base == MAP_FAILED) return MAP_FAILED;
	void* p = mmap(base + page, len, prot, flags | MAP_FIXED, fd, off);
	if (p == MAP_FAILED) { int e = errno; munmap(base, body + 2 * page); errno = e; return MAP_FAILED; }
	if (body > len) __asan_poison_memory_region(base + page + len, body - len);
	(*maps)[base + page] = Mapping{base, body + 2 * page, len};
	return p;
}

int sim_munmap(void* addr, size_t len) {
	tick();
	auto i = maps->find((char*)addr);
	if (i == maps->end()) return munmap(addr, len);
	Mapping m = i->second;
	// Unmapping less than has been mapped leaves the rest behind
	if (len < m.len && (len + 4095) / 4096 < (m.len + 4095) / 4096) return munmap(addr, len);
	maps->erase(i);
	__asan_unpoison_memory_region(m.base, m.total);
	return munmap(m.base, m.total);
}

int sim_madvise(void* addr, size_t len, int advice) {
	Fault* f = hit(F_MADVISE);
	if (f) { errno = fault_errno(f, ENOMEM); return -1; }
	return madvise(addr, len, advice);
}

time_t sim_time(time_t* t) {
	tick();
	int64_t s = now_ns / 1000000000ll;
	if (now_ns < 0 && now_ns % 1000000000ll) s--;
	if (t) *t = s;
	return s;
}

clock_t sim_clock(void) { tick(); return now_ns / 1000; }

int sim_clock_gettime(clockid_t, struct timespec* ts) {
	tick();
	ts->tv_sec = now_ns / 1000000000ll;
	ts->tv_nsec = now_ns % 1000000000ll;
	return 0;
}

int sim_gettimeofday(struct timeval* tv, void*) {
	tick();
	tv->tv_sec = now_ns / 1000000000ll;
	tv->tv_usec = now_ns % 1000000000ll / 1000;
	return 0;
}

// Crypto
#define CRYPTO_FAULT(ret) do { if (hit(F_CRYPTO)) { ERR_put_error(ERR_LIB_EVP, 0, ERR_R_MALLOC_FAILURE, __FILE__, __LINE__); return ret; } } while (0)

EVP_MD_CTX* sim_EVP_MD_CTX_new(void) { CRYPTO_FAULT(nullptr); EVP_MD_CTX* c = EVP_MD_CTX_new(); if (c) (*live)[c] = 1; return c; }
void sim_EVP_MD_CTX_free(EVP_MD_CTX* c) { tick(); if (c) live->erase(c); EVP_MD_CTX_free(c); }
int sim_EVP_DigestSignInit(EVP_MD_CTX* c, EVP_PKEY_CTX** p, const EVP_MD* t, ENGINE* e, EVP_PKEY* k) { CRYPTO_FAULT(0); return EVP_DigestSignInit(c, p, t, e, k); }
int sim_EVP_DigestSignUpdate(EVP_MD_CTX* c, const void* d, size_t n) { CRYPTO_FAULT(0); return EVP_DigestSignUpdate(c, d, n); }
int sim_EVP_DigestSignFinal(EVP_MD_CTX* c, unsigned char* s, size_t* n) { CRYPTO_FAULT(0); return EVP_DigestSignFinal(c, s, n); }
int sim_EVP_DigestVerifyInit(EVP_MD_CTX* c, EVP_PKEY_CTX** p, const EVP_MD* t, ENGINE* e, EVP_PKEY* k) { CRYPTO_FAULT(0); return EVP_DigestVerifyInit(c, p, t, e, k); }
int sim_EVP_DigestVerifyUpdate(EVP_MD_CTX* c, const void* d, size_t n) { CRYPTO_FAULT(0); return EVP_DigestVerifyUpdate(c, d, n); }
int sim_EVP_DigestVerifyFinal(EVP_MD_CTX* c, const unsigned char* s, size_t n) { CRYPTO_FAULT(-1); return EVP_DigestVerifyFinal(c, s, n); }
EVP_PKEY* sim_PEM_read_PrivateKey(FILE* f, EVP_PKEY** x, pem_password_cb* cb, void* u) { CRYPTO_FAULT(nullptr); EVP_PKEY* k = PEM_read_PrivateKey(f, x, cb, u); if (k) (*live)[k] = 1; return k; }
EVP_PKEY* sim_PEM_read_PUBKEY(FILE* f, EVP_PKEY** x, pem_password_cb* cb, void* u) { CRYPTO_FAULT(nullptr); EVP_PKEY* k = PEM_read_PUBKEY(f, x, cb, u); if (k) (*live)[k] = 1; return k; }
void sim_EVP_PKEY_free(EVP_PKEY* k) { tick(); if (k) live->erase(k); EVP_PKEY_free(k); }

// Resolver
int sim___res_init(void) { tick(); return dns.init_result; }
int sim_res_query(const char* name, int cls, int type, unsigned char* answer, int anslen) {
	tick();
	dns.queries++;
	dns.name = name;
	dns.cls = cls;
	dns.type = type;
	h_errno = dns.herrno;
	if (dns.result < 0) return dns.result;
	size_t n = dns.reply.size();
	if ((int)n > anslen) n = anslen < 0 ? 0 : anslen;
	memcpy(answer, dns.reply.data(), n);
	return dns.result;
}

const char* __asan_default_options(void) {
	return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:handle_segv=1:"
		"detect_stack_use_after_return=0:malloc_context_size=12:quarantine_size_mb=16:max_allocation_size_mb=4096";
}

} // extern "C"

// OpenSSL's random numbers come from the seed
static int rnd_bytes(unsigned char* b, int n) { for (int i = 0; i < n; i++) b[i] = (unsigned char)rand_rng.next(); return 1; }
static int rnd_status(void) { return 1; }
static RAND_METHOD rnd = { nullptr, rnd_bytes, nullptr, nullptr, rnd_bytes, rnd_status };
static struct RndInit { RndInit() { RAND_set_rand_method(&rnd); } } rnd_init;
