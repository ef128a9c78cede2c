// threadsim - several threads, each with objects of its own, use the library at the same time (C17).
//
// The threads are real (so that thread local storage is), but only one of them runs at any time. The library has been
// compiled so that it calls back before every memory access and in every basic block: each of these is a point at which a
// seeded scheduler may hand over to another thread. Memory that has been used by more than one thread (and static memory)
// is known to the scheduler, which prefers to switch around accesses to it.
//
//   run PROP BASE FROM COUNT STEP TIER LIMIT | gen PROP SEED TIER | seed PROP BASE INDEX | exec FILE [-v|-r]
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <arpa/inet.h>
#include <arpa/nameser.h>
#include <link.h>
#include <openssl/rand.h>
#include <netdb.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <threads.h>
#include <time.h>
#include <unistd.h>
extern "C" {
#include <libloc/libloc.h>
#include <libloc/as.h>
#include <libloc/as-list.h>
#include <libloc/country.h>
#include <libloc/country-list.h>
#include <libloc/database.h>
#include <libloc/network.h>
#include <libloc/network-list.h>
#include <libloc/resolv.h>
#include <libloc/writer.h>
}
#include "keys.inc"
using std::string;
using std::vector;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	bool chance(unsigned percent) { return below(100) < percent; }
	template <class T> const T& pick(const vector<T>& v) { return v[below(v.size())]; }
};
static uint64_t mix64(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x632BE59BD9B4E019ull)); return r.next(); }
static uint64_t hash_str(const string& s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

// ---------------------------------------------------------------------------
// Plans
struct POp { int t, id; vector<string> a; long fail_at = 0; bool sticky = false; };
struct Sw { int t, id; long k; int to; };
struct PlanT {
	uint64_t seed = 1; int mode = 0; long dist = 10; int hot = 50; bool fixed = false;
	int threads = 0;
	vector<POp> ops;
	vector<Sw> sw;
};

static string enc(const string& s) {
	string o; char b[8];
	for (unsigned char c : s) { if (c <= ' ' || c == '%' || c >= 127 || c == '!') { snprintf(b, sizeof b, "%%%02x", c); o += b; } else o += (char)c; }
	return o.empty() ? "%" : o;
}
static string dec(const string& s) {
	if (s == "%") return "";
	string o;
	for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i];
	return o;
}

static PlanT parse(const string& text) {
	PlanT p;
	std::istringstream in(text);
	string l;
	while (std::getline(in, l)) {
		if (l.empty() || l[0] == '#') continue;
		std::istringstream ls(l);
		string w; vector<string> a;
		POp o;
		bool f = false;
		while (ls >> w) {
			if (w == "!") { f = true; continue; }
			if (f) { if (w.rfind("alloc:", 0) == 0) { o.fail_at = atol(w.c_str() + 6); o.sticky = w.find(":s") != string::npos; } continue; }
			a.push_back(w);
		}
		if (a[0] == "run") {
			for (auto& x : a) {
				if (x.rfind("seed=", 0) == 0) p.seed = strtoull(x.c_str() + 5, nullptr, 10);
				if (x.rfind("mode=", 0) == 0) p.mode = atoi(x.c_str() + 5);
				if (x.rfind("dist=", 0) == 0) p.dist = atol(x.c_str() + 5);
				if (x.rfind("hot=", 0) == 0) p.hot = atoi(x.c_str() + 4);
				if (x == "fixed") p.fixed = true;
			}
		} else if (a[0] == "sw" && a.size() >= 5) p.sw.push_back({atoi(a[1].c_str()), atoi(a[2].c_str()), atol(a[3].c_str()), atoi(a[4].c_str())});
		else if (a[0][0] == 't' && a.size() >= 3) {
			o.t = atoi(a[0].c_str() + 1); o.id = atoi(a[1].c_str());
			if (o.t < 0 || o.t > 7) continue;
			o.a.assign(a.begin() + 2, a.end());
			p.threads = std::max(p.threads, o.t + 1);
			p.ops.push_back(o);
		}
	}
	return p;
}
static string show(const POp& o) {
	string s = "t" + std::to_string(o.t) + " " + std::to_string(o.id);
	for (auto& x : o.a) s += " " + x;
	if (o.fail_at) s += " ! alloc:" + std::to_string(o.fail_at) + (o.sticky ? ":s" : "");
	return s;
}

// ---------------------------------------------------------------------------
// Scheduler
struct Thread {
	int idx = 0;
	pthread_t tid;
	sem_t sem;
	bool done = false, started = false;
	uintptr_t lo = 0, hi = 0;
	vector<const POp*> prog;
	int op = 0; long k = 0;        // where it is
	long fail_at = 0; bool sticky = false; long allocs = 0;
	int np = 0;                    // not to be interrupted
	int64_t clock = 1700000000;
	string reply; int reply_len = -1;
	vector<string> hist;           // one entry for each operation
	string out;
	uint64_t prio = 0;
	bool hot_next = false;
	Rng rnd{7};
};
static vector<Thread*> threads;
static thread_local Thread* self;
static Thread* running;
static bool concurrent;            // otherwise each one runs alone
static const PlanT* plan;
static Rng srng(1);
static std::map<std::pair<std::pair<int,int>, long>, int> fixed_sw;
static vector<Sw> taken;
static long next_switch;
static vector<long> change_points;
static long total_points;
static int stalled = -1; static long stall_at, stall_until;
static sem_t main_sem;
static const long CAP = 400000000;

struct Counters { uint64_t points, preempt, hot, shared, alloc, stall, edges, edges_total, blocked; unsigned char edge[65536]; };
static Counters* C;                // shared with the children

static void hang(const char* what) { char b[100]; int n = snprintf(b, sizeof b, "\nHANG %s\n", what); (void)!write(1, b, n); _exit(78); }

static long distance() {
	if (taken.size() > 6000) return 500 + srng.below(5000);
	if (plan->dist <= 1) return 1;
	// a mixture, so that there are short and long stretches
	switch (srng.below(8)) {
		case 0: return 1 + srng.below(4);
		case 1: return 1 + srng.below(plan->dist * 8);
		default: return 1 + srng.below(plan->dist * 2);
	}
}

static void hand_over(Thread* to) {
	Thread* me = self;
	running = to;
	sem_post(&to->sem);
	if (me) { while (sem_wait(&me->sem)) {} }
}

static bool runnable(Thread* t) { return !t->done; }
static vector<Thread*> others(Thread* me) {
	vector<Thread*> v;
	for (auto t : threads) if (t != me && runnable(t) && t->idx != stalled) v.push_back(t);
	if (v.empty()) for (auto t : threads) if (t != me && runnable(t)) v.push_back(t);
	return v;
}
static Thread* choose(Thread* me) {
	auto v = others(me);
	if (v.empty()) return nullptr;
	if (plan->mode == 1) return *std::max_element(v.begin(), v.end(), [](Thread* a, Thread* b) { return a->prio < b->prio; });
	return v[srng.below(v.size())];
}

static void switch_to(Thread* me, Thread* to) {
	taken.push_back({me->idx, me->op, me->k, to->idx});
	C->preempt++;
	hand_over(to);
}

// A point at which another thread may be next
static inline void point(bool hot) {
	Thread* me = self;
	if (!me || me->np) return;
	me->k++;
	if (++total_points > CAP) hang("step limit exceeded");
	if (!concurrent) return;
	if (plan->fixed) {
		if (fixed_sw.empty()) return;
		auto i = fixed_sw.find({{me->idx, me->op}, me->k});
		if (i == fixed_sw.end()) return;
		for (auto t : threads) if (t->idx == i->second && t != me && runnable(t)) { switch_to(me, t); return; }
		return;
	}
	bool now = false;
	if (hot || me->hot_next) {
		me->hot_next = hot;
		C->shared++;
		if (srng.chance(taken.size() > 6000 ? 1 : plan->hot)) { now = true; C->hot++; }
	}
	if (total_points >= next_switch) { now = true; next_switch = total_points + distance(); }
	if (plan->mode == 1) {
		// priorities: only changes at change points (and around shared memory) matter
		if (!hot) now = false;
		if (!change_points.empty() && total_points >= change_points.back()) { change_points.pop_back(); me->prio = srng.next() >> 32; now = true; }
		else if (now) me->prio = srng.next() >> 32;
	}
	if (plan->mode == 2) {
		if (stalled < 0 && stall_at && total_points >= stall_at) { stalled = me->idx; stall_at = 0; C->stall++; now = true; }
		if (stalled >= 0 && total_points >= stall_until) stalled = -1;
	}
	if (!now) return;
	Thread* to = choose(me);
	if (to) switch_to(me, to);
}
// Something this thread waits for is held by another one
static void blocked() {
	Thread* me = self;
	C->blocked++;
	if (!concurrent || !me) hang("deadlock");
	if (++total_points > CAP) hang("deadlock");
	me->k++;
	vector<Thread*> v;
	for (auto t : threads) if (t != me && runnable(t)) v.push_back(t);
	if (v.empty()) hang("deadlock");
	// round robin: the same one with and without a recorded schedule
	static unsigned rr;
	hand_over(v[rr++ % v.size()]);
}

// ---------------------------------------------------------------------------
// Who has used which memory
struct Page { uint8_t acc[512], wr[512]; };
static std::unordered_map<uintptr_t, Page*>* pages;
static uintptr_t last_page; static Page* last_p;
static vector<std::pair<uintptr_t, uintptr_t>> statics;

static Page* page(uintptr_t n, bool create) {
	if (n == last_page && last_p) return last_p;
	auto i = pages->find(n);
	if (i == pages->end()) {
		if (!create) return nullptr;
		i = pages->emplace(n, (Page*)calloc(1, sizeof(Page))).first;
	}
	last_page = n; last_p = i->second;
	return last_p;
}
static void forget(const volatile void* p, size_t n) {
	if (!pages || !n) return;
	uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3;
	while (a < e) {
		Page* q = page(a >> 9, false);
		uintptr_t stop = std::min(e, ((a >> 9) + 1) << 9);
		if (q) { memset(q->acc + (a & 511), 0, stop - a); memset(q->wr + (a & 511), 0, stop - a); }
		a = stop;
	}
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void on_malloc(const volatile void* p, size_t n) {
	Thread* me = self;
	if (!me || !p) return;
	me->np++;
	forget(p, n);
	me->np--;
}
static void on_free(const volatile void*) {}

static int phdr(struct dl_phdr_info* i, size_t, void*) {
	for (int k = 0; k < i->dlpi_phnum; k++) {
		auto& h = i->dlpi_phdr[k];
		if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) statics.push_back({i->dlpi_addr + h.p_vaddr, i->dlpi_addr + h.p_vaddr + h.p_memsz});
	}
	return 0;
}

static inline void touch(uintptr_t a, bool write) {
	Thread* me = self;
	if (!me || me->np) return;
	if (a >= me->lo && a < me->hi) { point(false); return; }
	if (!concurrent) { point(false); return; }
	me->np++;
	uintptr_t g = a >> 3;
	Page* p = page(g >> 9, true);
	uint8_t& acc = p->acc[g & 511]; uint8_t& wr = p->wr[g & 511];
	uint8_t bit = 1 << me->idx;
	bool hot = (acc & ~bit) && (write || wr);
	if (!hot && write) for (auto& s : statics) if (a >= s.first && a < s.second) { hot = true; break; }
	acc |= bit;
	if (write) wr |= bit;
	me->np--;
	point(hot);
}
extern "C" {
#define LS(n) void __sanitizer_cov_load##n(void* p) { touch((uintptr_t)p, false); } void __sanitizer_cov_store##n(void* p) { touch((uintptr_t)p, true); }
LS(1) LS(2) LS(4) LS(8) LS(16)
static uint32_t guards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; for (; a < b; a++) *a = ++guards; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { if (C && *g < sizeof(C->edge)) C->edge[*g] = 1; point(false); }

const char* __asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1"; }

// ---------------------------------------------------------------------------
// Seams
static bool fail_alloc() {
	Thread* me = self;
	if (!me || me->np || !me->fail_at) return false;
	long n = ++me->allocs;
	if (n == me->fail_at || (me->sticky && n >= me->fail_at)) { C->alloc++; errno = ENOMEM; return true; }
	return false;
}
void* thr_malloc(size_t n) { if (fail_alloc()) return nullptr; return malloc(n); }
void* thr_calloc(size_t a, size_t b) { if (fail_alloc()) return nullptr; return calloc(a, b); }
void* thr_realloc(void* p, size_t n) { if (fail_alloc()) return nullptr; return realloc(p, n); }
void* thr_reallocarray(void* p, size_t a, size_t b) { if (fail_alloc()) return nullptr; return reallocarray(p, a, b); }
char* thr_strdup(const char* s) { if (fail_alloc()) return nullptr; return strdup(s); }
char* thr_strndup(const char* s, size_t n) { if (fail_alloc()) return nullptr; return strndup(s, n); }
int thr_vasprintf(char** s, const char* f, va_list a) { if (fail_alloc()) { *s = nullptr; return -1; } return vasprintf(s, f, a); }
int thr_asprintf(char** s, const char* f, ...) { va_list a; va_start(a, f); int r = thr_vasprintf(s, f, a); va_end(a); return r; }
void* thr_mmap(void* a, size_t n, int p, int f, int fd, off_t o) { void* r = mmap(a, n, p, f, fd, o); if (r != MAP_FAILED && self) { self->np++; forget(r, n); self->np--; } return r; }

time_t thr_time(time_t* t) { time_t x = self ? self->clock : 1700000000; if (t) *t = x; point(false); return x; }
clock_t thr_clock(void) { return 0; }
int thr_clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = self ? self->clock : 1700000000; ts->tv_nsec = 0; return 0; }
int thr_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = self ? self->clock : 1700000000; tv->tv_usec = 0; return 0; }
int thr___res_init(void) { point(true); return 0; }
int thr_res_query(const char* name, int cls, int type, unsigned char* a, int len) {
	point(true);
	Thread* me = self;
	me->out += string(" query=") + name + "/" + std::to_string(cls) + "/" + std::to_string(type);
	if (me->reply_len < 0) { h_errno = HOST_NOT_FOUND; return -1; }
	memcpy(a, me->reply.data(), std::min<size_t>(len, me->reply.size()));
	point(true);
	return me->reply_len;
}

// Functions with state that is shared by all threads, or results in static memory
struct tm* thr_gmtime(const time_t* t) { point(true); struct tm* r = gmtime(t); point(true); return r; }
struct tm* thr_localtime(const time_t* t) { point(true); struct tm* r = localtime(t); point(true); return r; }
char* thr_asctime(const struct tm* t) { point(true); char* r = asctime(t); point(true); return r; }
char* thr_ctime(const time_t* t) { point(true); char* r = ctime(t); point(true); return r; }
char* thr_strtok(char* s, const char* d) { point(true); char* r = strtok(s, d); point(true); return r; }
char* thr_strerror(int e) { point(true); char* r = strerror(e); point(true); return r; }
char* thr_inet_ntoa(struct in_addr a) { point(true); char* r = inet_ntoa(a); point(true); return r; }
int thr_rand(void) { point(true); int r = rand(); point(true); return r; }
void thr_srand(unsigned n) { point(true); srand(n); point(true); }
const char* thr_inet_ntop(int f, const void* a, char* b, socklen_t n) { touch((uintptr_t)b, true); const char* r = inet_ntop(f, a, b, n); touch((uintptr_t)b, true); return r; }
int thr_inet_pton(int f, const char* s, void* a) { touch((uintptr_t)a, true); int r = inet_pton(f, s, a); touch((uintptr_t)a, true); return r; }
char* thr_getenv(const char* n) { point(true); char* r = getenv(n); point(true); return r; }
char* thr_secure_getenv(const char* n) { point(true); char* r = secure_getenv(n); point(true); return r; }
int thr_vsnprintf(char* b, size_t n, const char* f, va_list a) { touch((uintptr_t)b, true); int r = vsnprintf(b, n, f, a); touch((uintptr_t)b, true); return r; }
int thr_snprintf(char* b, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = thr_vsnprintf(b, n, f, a); va_end(a); return r; }
int thr_sprintf(char* b, const char* f, ...) { touch((uintptr_t)b, true); va_list a; va_start(a, f); int r = vsprintf(b, f, a); va_end(a); touch((uintptr_t)b, true); return r; }
char* thr_strptime(const char* s, const char* f, struct tm* t) { touch((uintptr_t)t, true); char* r = strptime(s, f, t); touch((uintptr_t)t, true); return r; }
// Moving memory is not one step. The state of a thread that has been interrupted half way is what these show.
static void pieces(char* d, const char* s, size_t n) {
	touch((uintptr_t)s, false); touch((uintptr_t)d, true);
	size_t h = n / 2;
	memmove(d, s, h);
	if (h) touch((uintptr_t)d + h, true);
	memmove(d + h, s + h, n - h);
	touch((uintptr_t)d + (n ? n - 1 : 0), true);
}
void* thr_memcpy(void* d, const void* s, size_t n) { if (!n || n > 4096) { point(false); return memcpy(d, s, n); } pieces((char*)d, (const char*)s, n); return d; }
void* thr_memset(void* d, int c, size_t n) { if (n) touch((uintptr_t)d, true); memset(d, c, n); if (n) touch((uintptr_t)d, true); return d; }
void* thr_asan_memcpy(void* d, const void* s, size_t n) { return thr_memcpy(d, s, n); }
void* thr_asan_memset(void* d, int c, size_t n) { return thr_memset(d, c, n); }
char* thr_strcpy(char* d, const char* s) { pieces(d, s, strlen(s) + 1); return d; }
char* thr_strncpy(char* d, const char* s, size_t n) { touch((uintptr_t)s, false); touch((uintptr_t)d, true); strncpy(d, s, n); touch((uintptr_t)d, true); return d; }
size_t thr_strlen(const char* s) { touch((uintptr_t)s, false); return strlen(s); }
int thr_strcmp(const char* a, const char* b) { touch((uintptr_t)a, false); touch((uintptr_t)b, false); return strcmp(a, b); }
int thr_memcmp(const void* a, const void* b, size_t n) { if (n) { touch((uintptr_t)a, false); touch((uintptr_t)b, false); } return memcmp(a, b, n); }

// Locks would stop the one thread that runs
int thr_pthread_mutex_lock(pthread_mutex_t* m) { point(true); int r; while ((r = pthread_mutex_trylock(m)) == EBUSY) blocked(); return r; }
int thr_pthread_mutex_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock(m); point(true); return r; }
int thr_pthread_spin_lock(pthread_spinlock_t* m) { point(true); int r; while ((r = pthread_spin_trylock(m)) == EBUSY) blocked(); return r; }
int thr_pthread_rwlock_rdlock(pthread_rwlock_t* m) { point(true); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) blocked(); return r; }
int thr_pthread_rwlock_wrlock(pthread_rwlock_t* m) { point(true); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) blocked(); return r; }
int thr_mtx_lock(mtx_t* m) { point(true); int r; while ((r = mtx_trylock(m)) == thrd_busy) blocked(); return r; }
static Thread* once_owner;
int thr_pthread_once(pthread_once_t* o, void (*f)(void)) { point(true); if (self) self->np++; int r = pthread_once(o, f); if (self) self->np--; point(true); return r; }
void thr_call_once(once_flag* o, void (*f)(void)) { point(true); if (self) self->np++; call_once(o, f); if (self) self->np--; point(true); }
void thr_flockfile(FILE* f) { point(true); while (ftrylockfile(f)) blocked(); }
}

// OpenSSL's random numbers: every thread has a sequence of its own
static int rnd_bytes(unsigned char* b, int n) { static Rng none(5); Rng& r = self ? self->rnd : none; for (int i = 0; i < n; i++) b[i] = (unsigned char)r.next(); return 1; }
static int rnd_status() { return 1; }
static RAND_METHOD rnd = { nullptr, rnd_bytes, nullptr, nullptr, rnd_bytes, rnd_status };
static struct RndInit { RndInit() { RAND_set_rand_method(&rnd); } } rnd_init;

// ---------------------------------------------------------------------------
// What the threads do
struct Enum { struct loc_database_enumerator* e = nullptr; int mode = 0; };
struct Prog {
	Thread* t;
	struct loc_ctx* ctx = nullptr;
	std::map<string, struct loc_network*> nets;
	std::map<string, struct loc_network_list*> lists;
	std::map<string, struct loc_as*> ases;
	std::map<string, struct loc_country*> ccs;
	struct loc_as_list* aslist = nullptr;
	struct loc_country_list* cclist = nullptr;
	struct loc_writer* writer = nullptr;
	FILE* file = nullptr;
	struct loc_database* db = nullptr;
	std::map<string, Enum> enums;
	bool is_signed = false;
	explicit Prog(Thread* th) : t(th) {}

	void out(const char* f, ...) __attribute__((format(printf, 2, 3))) {
		char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
		t->out += " "; t->out += b;
	}
	// A string returned by the library: somebody else runs before it is read
	string S(const char* s) { if (!s) return "(null)"; string r; for (int i = 0; s[i]; i++) { if (i == 0 || i == 3) touch((uintptr_t)(s + i), false); r += s[i]; } return r; }
	string hex(const struct in6_addr* a) { if (!a) return "(null)"; string r; char b[4]; for (int i = 0; i < 16; i++) { snprintf(b, sizeof b, "%02x", a->s6_addr[i]); r += b; } return r; }
	void net(struct loc_network* n) {
		const char* f = loc_network_format_first_address(n);
		const char* l = loc_network_format_last_address(n);
		const char* s = loc_network_str(n);
		point(true);
		const char* cc = loc_network_get_country_code(n);
		string ff = S(f), ll = S(l), ss = S(s), c = S(cc);
		int fl = 0;
		for (int i = 0; i < 4; i++) fl |= loc_network_has_flag(n, 1 << i) ? 1 << i : 0;
		out("[%s %s-%s %s AS%u %x f%d/%u]", ss.c_str(), ff.c_str(), ll.c_str(), c.c_str(), loc_network_get_asn(n), fl, loc_network_address_family(n), loc_network_prefix(n));
	}
	void as(struct loc_as* a) { string n = S(loc_as_get_name(a)); out("(AS%u %s)", loc_as_get_number(a), n.c_str()); }
	void cc(struct loc_country* c) { string a = S(loc_country_get_code(c)), b = S(loc_country_get_continent_code(c)), n = S(loc_country_get_name(c)); out("(%s %s %s)", a.c_str(), b.c_str(), n.c_str()); }
	void list(struct loc_network_list* l) {
		size_t n = loc_network_list_size(l);
		out("%zu", n);
		for (size_t i = 0; i < n && i < 300; i++) { struct loc_network* x = loc_network_list_get(l, i); if (x) { net(x); loc_network_unref(x); } else out("?"); }
	}
	FILE* key(const char* k) { FILE* f = tmpfile(); fputs(k, f); rewind(f); return f; }
	struct in6_addr addr(const string& s) {
		struct in6_addr a; memset(&a, 0, sizeof a);
		if (s.find(':') != string::npos) inet_pton(AF_INET6, s.c_str(), &a);
		else { a.s6_addr[10] = a.s6_addr[11] = 0xff; inet_pton(AF_INET, s.c_str(), a.s6_addr + 12); }
		return a;
	}
	static void log_cb(struct loc_ctx*, void* data, int prio, const char*, int, const char* fn, const char* fmt, va_list a) {
		Prog* me = (Prog*)data;
		char b[1024]; vsnprintf(b, sizeof b, fmt, a);
		// leave out pointers
		string s; for (char* p = b; *p; p++) { if (p[0] == '0' && p[1] == 'x') { s += "PTR"; p += 2; while (isxdigit((unsigned char)*p)) p++; p--; } else if (*p != '\n') s += *p; }
		me->out("{log%d %s: %s%s}", prio, fn, s.c_str(), self == me->t ? "" : " (by another thread)");
	}
	struct loc_network* N(const string& k) { auto i = nets.find(k); return i == nets.end() ? nullptr : i->second; }
	void put(const string& k, struct loc_network* n) { auto& x = nets[k]; if (x) loc_network_unref(x); x = n; if (!n) nets.erase(k); }

	void op(const POp& o) {
		const string& n = o.a[0];
		auto A = [&](size_t i) { return i < o.a.size() ? dec(o.a[i]) : string(); };
		auto I = [&](size_t i) { return i < o.a.size() ? strtoll(o.a[i].c_str(), nullptr, 10) : 0ll; };
		if (n == "ctx") {
			if (ctx) { struct loc_ctx* c2 = loc_ref(ctx); loc_unref(c2); out("%d", loc_get_log_priority(ctx)); return; }
			int r = loc_new(&ctx);
			if (r) ctx = nullptr; else { loc_set_log_callback(ctx, log_cb, this); loc_set_log_priority(ctx, (int)I(1)); out("%d", loc_get_log_priority(ctx)); }
			out("%d", r);
		} else if (n == "valid") { out("%d %d", loc_country_code_is_valid(A(1).c_str()), loc_country_special_code_to_flag(A(1).c_str())); }
		else if (!ctx) out("-");
		else if (n == "clock") t->clock = I(1);
		else if (n == "prio") { loc_set_log_priority(ctx, (int)I(1)); point(true); out("%d", loc_get_log_priority(ctx)); }
		else if (n == "net") { struct loc_network* x = nullptr; int r = loc_network_new_from_string(ctx, &x, A(2).c_str()); out("%d", !!r); if (!r) { net(x); put(A(1), x); } }
		else if (n == "netb") { struct in6_addr a = addr(A(2)); struct loc_network* x = nullptr; int r = loc_network_new(ctx, &x, &a, (unsigned)I(3)); out("%d", !!r); if (!r) { net(x); put(A(1), x); } }
		else if (n == "nset") { auto x = N(A(1)); if (x) { int a = loc_network_set_country_code(x, A(2).c_str()), b = loc_network_set_asn(x, (uint32_t)I(3)), c = loc_network_set_flag(x, (uint32_t)I(4)); out("%d %d %d %d", a, b, c, loc_network_matches_country_code(x, A(2).c_str())); net(x); } }
		else if (n == "nstr") { auto x = N(A(1)); if (x) net(x); }
		else if (n == "naddr") { auto x = N(A(1)); if (x) { out("%s %s", hex(loc_network_get_first_address(x)).c_str(), hex(loc_network_get_last_address(x)).c_str()); struct in6_addr a = addr(A(2)); out("%d", loc_network_matches_address(x, &a)); } }
		else if (n == "nrev") { auto x = N(A(1)); if (x) { char* r = loc_network_reverse_pointer(x, o.a.size() > 2 ? A(2).c_str() : nullptr); point(true); out("%s", S(r).c_str()); free(r); } }
		else if (n == "ncmp") { auto x = N(A(1)), y = N(A(2)); if (x && y) out("%d %d %d", loc_network_cmp(x, y), loc_network_overlaps(x, y), loc_network_is_subnet(x, y)); }
		else if (n == "nsub") { auto x = N(A(1)); if (x) { struct loc_network *a = nullptr, *b = nullptr; int r = loc_network_subnets(x, &a, &b); out("%d", !!r); if (!r) { if (a) net(a); if (b) net(b); put(A(2), a); if (b) loc_network_unref(b); } } }
		else if (n == "nexc") { auto x = N(A(1)), y = N(A(2)); if (x && y) { auto l = loc_network_exclude(x, y); if (l) { list(l); loc_network_list_unref(l); } else out("none"); } }
		else if (n == "nexl") { auto x = N(A(1)); auto l = lists.find(A(2)); if (x && l != lists.end()) { auto r = loc_network_exclude_list(x, l->second); if (r) { list(r); loc_network_list_unref(r); } else out("none"); } }
		else if (n == "nfree") put(A(1), nullptr);
		else if (n == "lnew") { auto& l = lists[A(1)]; if (l) { loc_network_list_unref(l); l = nullptr; } int r = loc_network_list_new(ctx, &l); out("%d", !!r); if (r) lists.erase(A(1)); }
		else if (n == "lpush" || n == "lpop" || n == "lall" || n == "ldump" || n == "lclear" || n == "lhas" || n == "lmerge") {
			auto i = lists.find(A(1)); if (i == lists.end()) return;
			auto l = i->second;
			if (n == "lpush") { auto x = N(A(2)); if (x) { int r = loc_network_list_push(l, x); out("%d %zu", !!r, loc_network_list_size(l)); } }
			else if (n == "lpop") { auto x = I(2) ? loc_network_list_pop(l) : loc_network_list_pop_first(l); if (x) { net(x); loc_network_unref(x); } else out("none"); }
			else if (n == "lall") list(l);
			else if (n == "ldump") loc_network_list_dump(l);
			else if (n == "lclear") { loc_network_list_clear(l); out("%d", loc_network_list_empty(l)); }
			else if (n == "lhas") { auto x = N(A(2)); if (x) out("%d", loc_network_list_contains(l, x)); }
			else { auto j = lists.find(A(2)); if (j != lists.end() && j != i) { int r = loc_network_list_merge(l, j->second); out("%d", !!r); list(l); } }
		}
		else if (n == "as") { struct loc_as* a = nullptr; int r = loc_as_new(ctx, &a, (uint32_t)I(2)); out("%d", !!r); if (!r) { out("%d", !!loc_as_set_name(a, A(3).c_str())); as(a); auto& x = ases[A(1)]; if (x) loc_as_unref(x); x = a; } }
		else if (n == "asx") { auto i = ases.find(A(1)), j = ases.find(A(2)); if (i != ases.end() && j != ases.end()) { out("%d", loc_as_cmp(i->second, j->second)); as(i->second); as(j->second); } }
		else if (n == "alist") { if (!aslist) { int r = loc_as_list_new(ctx, &aslist); out("%d", !!r); if (r) { aslist = nullptr; return; } } auto i = ases.find(A(1)); if (i != ases.end()) { int r = loc_as_list_append(aslist, i->second); out("%d %zu %d", !!r, loc_as_list_size(aslist), loc_as_list_contains(aslist, i->second)); } }
		else if (n == "aall") { if (!aslist) return; if (I(1)) loc_as_list_sort(aslist); out("%d", loc_as_list_contains_number(aslist, (uint32_t)I(2))); size_t c = loc_as_list_size(aslist); for (size_t i = 0; i < c; i++) { auto a = loc_as_list_get(aslist, i); if (a) { as(a); loc_as_unref(a); } } }
		else if (n == "cc") { struct loc_country* c = nullptr; int r = loc_country_new(ctx, &c, A(2).c_str()); out("%d", !!r); if (!r) { out("%d %d", !!loc_country_set_continent_code(c, A(3).c_str()), !!loc_country_set_name(c, A(4).c_str())); cc(c); auto& x = ccs[A(1)]; if (x) loc_country_unref(x); x = c; } }
		else if (n == "ccx") { auto i = ccs.find(A(1)), j = ccs.find(A(2)); if (i != ccs.end() && j != ccs.end()) { out("%d", loc_country_cmp(i->second, j->second)); cc(i->second); cc(j->second); } }
		else if (n == "clist") { if (!cclist) { int r = loc_country_list_new(ctx, &cclist); out("%d", !!r); if (r) { cclist = nullptr; return; } } auto i = ccs.find(A(1)); if (i != ccs.end()) { int r = loc_country_list_append(cclist, i->second); out("%d %zu %d", !!r, loc_country_list_size(cclist), loc_country_list_contains(cclist, i->second)); } }
		else if (n == "call") { if (!cclist) return; if (I(1)) loc_country_list_sort(cclist); out("%d", loc_country_list_contains_code(cclist, A(2).c_str())); size_t c = loc_country_list_size(cclist); for (size_t i = 0; i < c; i++) { auto a = loc_country_list_get(cclist, i); if (a) { cc(a); loc_country_unref(a); } } }
		else if (n == "wnew") {
			if (writer) { loc_writer_unref(writer); writer = nullptr; }
			int k1 = (int)I(1), k2 = (int)I(2);
			t->np++;
			FILE* f1 = k1 >= 0 ? key(private_keys[k1 & 3]) : nullptr; FILE* f2 = k2 >= 0 ? key(private_keys[k2 & 3]) : nullptr;
			t->np--;
			int r = loc_writer_new(ctx, &writer, f1, f2);
			if (f1) fclose(f1); if (f2) fclose(f2);
			is_signed = f1 || f2;
			if (r) writer = nullptr;
			out("%d", !!r);
		}
		else if (n[0] == 'w') {
			if (!writer) { out("-"); return; }
			if (n == "wmeta") { int a = loc_writer_set_vendor(writer, A(1).c_str()), b = loc_writer_set_description(writer, A(2).c_str()), c = loc_writer_set_license(writer, A(3).c_str()); out("%d %d %d", !!a, !!b, !!c); point(true); string x = S(loc_writer_get_vendor(writer)), y = S(loc_writer_get_description(writer)), z = S(loc_writer_get_license(writer)); out("%s|%s|%s", x.c_str(), y.c_str(), z.c_str()); }
			else if (n == "was") { struct loc_as* a = nullptr; int r = loc_writer_add_as(writer, &a, (uint32_t)I(1)); out("%d", !!r); if (!r) { out("%d", !!loc_as_set_name(a, A(2).c_str())); loc_as_unref(a); } }
			else if (n == "wcc") { struct loc_country* c = nullptr; int r = loc_writer_add_country(writer, &c, A(1).c_str()); out("%d", !!r); if (!r) { out("%d %d", !!loc_country_set_continent_code(c, A(2).c_str()), !!loc_country_set_name(c, A(3).c_str())); loc_country_unref(c); } }
			else if (n == "wnet") { struct loc_network* x = nullptr; int r = loc_writer_add_network(writer, &x, A(1).c_str()); out("%d", r ? errno : 0); if (!r) { out("%d %d %d", !!loc_network_set_country_code(x, A(2).c_str()), !!loc_network_set_asn(x, (uint32_t)I(3)), !!loc_network_set_flag(x, (uint32_t)I(4))); loc_network_unref(x); } }
			else if (n == "wwrite") {
				t->np++;
				FILE* f = tmpfile();
				t->np--;
				int r = loc_writer_write(writer, f, LOC_DATABASE_VERSION_UNSET);
				fflush(f);
				out("%d", !!r);
				if (r) { fclose(f); return; }
				if (file) fclose(file);
				file = f;
				if (!is_signed) {
					t->np++;
					string all; char b[8192]; size_t k; rewind(f); while ((k = fread(b, 1, sizeof b, f)) > 0) all.append(b, k); rewind(f);
					t->np--;
					out("%zu %016llx", all.size(), (unsigned long long)hash_str(all));
				}
			}
		}
		else if (n == "dopen") {
			if (!file) { out("-"); return; }
			for (auto& e : enums) loc_database_enumerator_unref(e.second.e);
			enums.clear();
			if (db) { loc_database_unref(db); db = nullptr; }
			rewind(file);
			int r = loc_database_new(ctx, &db, file);
			if (r) db = nullptr;
			out("%d", !!r);
		}
		else if (n == "disc") {
			t->reply = A(2); t->reply_len = (int)I(3);
			time_t x = -1; int r = loc_discover_latest_version(ctx, (unsigned)I(1), &x);
			out("%d %lld", !!r, r ? 0ll : (long long)x);
		}
		else if (!db) out("-");
		else if (n == "look") { struct loc_network* x = nullptr; int r = loc_database_lookup_from_string(db, A(1).c_str(), &x); out("%d", r); if (!r && x) { net(x); loc_network_unref(x); } }
		else if (n == "lookb") { struct in6_addr a = addr(A(1)); struct loc_network* x = nullptr; int r = loc_database_lookup(db, &a, &x); out("%d", r); if (!r && x) { net(x); loc_network_unref(x); } }
		else if (n == "getas") { struct loc_as* a = nullptr; int r = loc_database_get_as(db, &a, (uint32_t)I(1)); out("%d", r); if (!r && a) { as(a); loc_as_unref(a); } }
		else if (n == "getcc") { struct loc_country* c = nullptr; int r = loc_database_get_country(db, &c, A(1).c_str()); out("%d", r); if (!r && c) { cc(c); loc_country_unref(c); } }
		else if (n == "meta") { const char *v = loc_database_get_vendor(db), *d = loc_database_get_description(db), *l = loc_database_get_license(db); point(true); string a = S(v), b = S(d), c = S(l); out("%s|%s|%s %lld %zu", a.c_str(), b.c_str(), c.c_str(), (long long)loc_database_created_at(db), loc_database_count_as(db)); }
		else if (n == "verify") { t->np++; FILE* k = key(public_keys[I(1) & 3]); t->np--; int r = loc_database_verify(db, k); fclose(k); out("%d", !!r); }
		else if (n == "enew") {   // E mode flags cc asn flag family string
			auto i = enums.find(A(1)); if (i != enums.end()) { loc_database_enumerator_unref(i->second.e); enums.erase(i); }
			Enum e; e.mode = (int)I(2);
			int r = loc_database_enumerator_new(&e.e, db, (enum loc_database_enumerator_mode)e.mode, (int)I(3));
			out("%d", !!r);
			if (r) return;
			if (A(4) != "-" && cclist) out("%d", !!loc_database_enumerator_set_countries(e.e, cclist));
			if (A(5) != "-" && aslist) out("%d", !!loc_database_enumerator_set_asns(e.e, aslist));
			if (I(6)) out("%d", !!loc_database_enumerator_set_flag(e.e, (enum loc_network_flags)I(6)));
			if (I(7)) out("%d", !!loc_database_enumerator_set_family(e.e, (int)I(7)));
			if (A(8) != "-") out("%d", !!loc_database_enumerator_set_string(e.e, A(8).c_str()));
			enums[A(1)] = e;
		}
		else if (n == "enext") {
			auto i = enums.find(A(1)); if (i == enums.end()) { out("-"); return; }
			auto& e = i->second;
			for (long k = 0; k < I(2); k++) {
				if (e.mode == LOC_DB_ENUMERATE_ASES) { struct loc_as* a = nullptr; int r = loc_database_enumerator_next_as(e.e, &a); if (r || !a) { out("%d", r); break; } as(a); loc_as_unref(a); }
				else if (e.mode == LOC_DB_ENUMERATE_COUNTRIES) { struct loc_country* a = nullptr; int r = loc_database_enumerator_next_country(e.e, &a); if (r || !a) { out("%d", r); break; } cc(a); loc_country_unref(a); }
				else { struct loc_network* a = nullptr; int r = loc_database_enumerator_next_network(e.e, &a); if (r || !a) { out("%d", r); break; } net(a); loc_network_unref(a); }
			}
		}
		else if (n == "efree") { auto i = enums.find(A(1)); if (i != enums.end()) { loc_database_enumerator_unref(i->second.e); enums.erase(i); } }
	}
	void finish() {
		for (auto& e : enums) loc_database_enumerator_unref(e.second.e);
		if (db) loc_database_unref(db);
		if (writer) loc_writer_unref(writer);
		if (file) fclose(file);
		for (auto& x : nets) loc_network_unref(x.second);
		for (auto& x : lists) loc_network_list_unref(x.second);
		for (auto& x : ases) loc_as_unref(x.second);
		for (auto& x : ccs) loc_country_unref(x.second);
		if (aslist) loc_as_list_unref(aslist);
		if (cclist) loc_country_list_unref(cclist);
		if (ctx) loc_unref(ctx);
	}
};

static void* thread_main(void* arg) {
	Thread* t = (Thread*)arg;
	pthread_attr_t at; void* sp; size_t sz;
	pthread_getattr_np(pthread_self(), &at);
	pthread_attr_getstack(&at, &sp, &sz);
	pthread_attr_destroy(&at);
	t->lo = (uintptr_t)sp; t->hi = t->lo + sz;
	while (sem_wait(&t->sem)) {}
	Prog p(t);
	self = t;
	for (auto o : t->prog) {
		t->op = o->id; t->k = 0;
		t->fail_at = o->fail_at; t->sticky = o->sticky; t->allocs = 0;
		t->out = o->a[0];
		point(false);
		p.op(*o);
		t->fail_at = 0;
		t->hist.push_back(t->out);
	}
	t->op = 999999; t->k = 0; t->out.clear();
	p.finish();
	t->hist.push_back("end" + t->out);
	t->done = true;
	if (stalled == t->idx) stalled = -1;
	// who is next?
	Thread* to = nullptr;
	if (concurrent) {
		if (plan->fixed) {
			auto i = fixed_sw.find({{t->idx, 999999}, -1});
			if (i != fixed_sw.end()) for (auto x : threads) if (x->idx == i->second && runnable(x)) to = x;
			if (!to) for (auto x : threads) if (runnable(x)) { to = x; break; }
		} else to = choose(t);
		if (to) taken.push_back({t->idx, 999999, -1, to->idx});
	}
	self = nullptr;
	if (to) { running = to; sem_post(&to->sem); }
	else sem_post(&main_sem);
	return nullptr;
}

// Runs the threads (all, or only one of them) in this process
static vector<vector<string>> run_threads(const PlanT& p, int only) {
	plan = &p;
	concurrent = only < 0;
	pages = new std::unordered_map<uintptr_t, Page*>();
	statics.clear();
	dl_iterate_phdr(phdr, nullptr);
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
	srng = Rng(p.seed);
	sem_init(&main_sem, 0, 0);
	for (auto& s : p.sw) fixed_sw[{{s.t, s.id}, s.k}] = s.to;
	for (int i = 0; i < p.threads; i++) {
		if (only >= 0 && i != only) continue;
		Thread* t = new Thread();
		t->idx = i;
		for (auto& o : p.ops) if (o.t == i) t->prog.push_back(&o);
		t->clock += i * 86400;
		t->rnd = Rng(mix64(77, i));
		t->prio = srng.next() >> 32;
		sem_init(&t->sem, 0, 0);
		threads.push_back(t);
	}
	next_switch = distance();
	if (p.mode == 1) { long n = 0; for (int i = 0; i < 12; i++) { n += 1 + srng.below(p.dist * 40); change_points.push_back(n); } std::reverse(change_points.begin(), change_points.end()); }
	if (p.mode == 2) { stall_at = 1 + srng.below(p.dist * 60); stall_until = stall_at + 1 + srng.below(p.dist * 2000); }
	for (auto t : threads) pthread_create(&t->tid, nullptr, thread_main, t);
	Thread* first = concurrent ? (p.fixed ? nullptr : threads[srng.below(threads.size())]) : threads[0];
	if (!first) { auto i = fixed_sw.find({{-1, 0}, 0}); for (auto t : threads) if (i != fixed_sw.end() && t->idx == i->second) first = t; if (!first) first = threads[0]; }
	if (concurrent) taken.push_back({-1, 0, 0, first->idx});
	running = first;
	sem_post(&first->sem);
	while (sem_wait(&main_sem)) {}
	for (auto t : threads) pthread_join(t->tid, nullptr);
	vector<vector<string>> h(p.threads);
	for (auto t : threads) h[t->idx] = t->hist;
	C->points += total_points;
	return h;
}

static void send(int fd, const string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) _exit(3); o += n; } }
static void watchdog(int) { hang("no progress"); }

// In a process of its own, so that whatever the library keeps does not survive. Histories: lines "T text", switches "S t id k to"
static int child(const PlanT& p, int only, string& out) {
	int fd[2];
	if (pipe(fd)) abort();
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) abort();
	if (!pid) {
		close(fd[0]);
		signal(SIGALRM, watchdog); alarm(100);
		auto h = run_threads(p, only);
		string s;
		for (size_t i = 0; i < h.size(); i++) for (auto& l : h[i]) { string e; for (char c : l) e += c == '\n' ? ' ' : c; s += "T" + std::to_string(i) + " " + e + "\n"; }
		for (auto& x : taken) s += "S " + std::to_string(x.t) + " " + std::to_string(x.id) + " " + std::to_string(x.k) + " " + std::to_string(x.to) + "\n";
		send(fd[1], s);
		fflush(stdout);
		_exit(0);
	}
	close(fd[1]);
	char b[65536]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
	close(fd[0]);
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (WIFSIGNALED(st)) { printf("VIOL 0000000000000000 crash: signal %d\n", WTERMSIG(st)); return 128 + WTERMSIG(st); }
	return WEXITSTATUS(st);
}

struct Result { int status = 0; string msg; uint64_t hash = 0; size_t ops = 0, checks = 0; vector<Sw> sw; };
static bool verbose;

static vector<vector<string>> split(const string& s, int n, vector<Sw>* sw) {
	vector<vector<string>> h(n);
	std::istringstream in(s); string l;
	while (std::getline(in, l)) {
		if (l[0] == 'T') h[atoi(l.c_str() + 1)].push_back(l.substr(l.find(' ') + 1));
		else if (l[0] == 'S' && sw) { Sw x; if (sscanf(l.c_str(), "S %d %d %ld %d", &x.t, &x.id, &x.k, &x.to) == 4) sw->push_back(x); }
	}
	return h;
}

static Result run_plan(const PlanT& p) {
	Result r;
	string out;
	r.status = child(p, -1, out);
	if (r.status) return r;
	auto got = split(out, p.threads, &r.sw);
	uint64_t h = hash_str("C17");
	for (auto& x : r.sw) { h = mix64(h, ((uint64_t)(x.t + 1) << 48) ^ ((uint64_t)x.id << 32) ^ (uint64_t)x.k); h = mix64(h, x.to); }
	for (auto& t : got) for (auto& l : t) h = hash_str(l, h);
	r.hash = h;
	for (int i = 0; i < p.threads; i++) {
		string o2;
		r.status = child(p, i, o2);
		if (r.status) return r;
		auto alone = split(o2, p.threads, nullptr)[i];
		r.ops += alone.size();
		vector<const POp*> prog; for (auto& o : p.ops) if (o.t == i) prog.push_back(&o);
		if (verbose) for (size_t k = 0; k < alone.size(); k++) printf("t%d %s: %s\n", i, k < prog.size() ? show(*prog[k]).c_str() : "end", alone[k].c_str());
		for (size_t k = 0; k < std::max(alone.size(), got[i].size()); k++) {
			string a = k < alone.size() ? alone[k] : "(nothing)", g = k < got[i].size() ? got[i][k] : "(nothing)";
			r.checks++;
			if (a != g) {
				size_t d = 0; while (d < a.size() && d < g.size() && a[d] == g[d]) d++;
				d = d > 20 ? d - 20 : 0;
				r.msg = "interference: thread " + std::to_string(i) + ", " + (k < prog.size() ? show(*prog[k]).substr(0, 100) : "end") + ": '" + g.substr(d, 100) + "', but alone '" + a.substr(d, 100) + "'";
				r.status = 1;
				return r;
			}
		}
	}
	return r;
}

// ---------------------------------------------------------------------------
// Plans
struct Gen {
	Rng r; string o; int id = 0; int t = 0;
	explicit Gen(uint64_t s) : r(s) {}
	void line(const string& s, bool fault = true) {
		string l = "t" + std::to_string(t) + " " + std::to_string(id++) + " " + s;
		if (fault && faults && r.chance(10)) l += " ! alloc:" + std::to_string(1 + r.below(r.chance(50) ? 3 : 20)) + (r.chance(30) ? ":s" : "");
		o += l + "\n";
	}
	bool faults = false;
	string n() { return std::to_string(r.below(3)); }
	string v4() { return std::to_string(1 + r.below(220)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)); }
	string v6() { char b[64]; snprintf(b, sizeof b, "2%03x:%x:%x:%x::%x", (int)r.below(4096), (int)r.below(65536), (int)r.below(65536), (int)r.below(65536), (int)r.below(65536)); return b; }
	string address() { return r.chance(50) ? v4() : v6(); }
	string network() {
		if (r.chance(3)) return "nonsense/" + std::to_string(t);
		if (r.chance(55)) { string a = v4(); int p = (int)(r.chance(50) ? 8 + 8 * r.below(4) : r.below(33)); return a + "/" + std::to_string(p); }
		string a = v6(); int p = (int)(r.chance(50) ? 16 + 16 * r.below(8) : r.below(129)); return a + "/" + std::to_string(p);
	}
	string code() { string s; s += (char)('A' + r.below(26)); s += (char)('A' + r.below(26)); return r.chance(5) ? "T1" : s; }
	string name() { static const char* w[] = {"Alpha", "Beta", "Gamma", "Networks", "Telecom", "GmbH", "Ltd.", "x"}; string s = w[r.below(8)]; int k = (int)r.below(4); for (int i = 0; i < k; i++) s += string(" ") + w[r.below(8)]; return enc(s + std::to_string(t * 1000 + r.below(500))); }
	string asn() { return std::to_string(r.chance(50) ? 1 + r.below(70000) : 1 + r.below(4294967295u)); }
	string cont() { static const char* w[] = {"EU", "AS", "AF", "NA", "SA", "OC", "AN"}; return w[r.below(7)]; }
	string flag() { return std::to_string(r.chance(60) ? 0 : 1 + r.below(15)); }

	vector<string> known_nets, known_as, known_cc;
	string host(const string& net) { string a = net.substr(0, net.find('/')); return a; }
	void small() {
		switch (r.below(24)) {
			case 0: case 1: case 2: line("net " + n() + " " + network()); break;
			case 3: line("netb " + n() + " " + address() + " " + std::to_string(r.below(130))); break;
			case 4: line("nset " + n() + " " + code() + " " + asn() + " " + flag()); break;
			case 5: case 6: line("nstr " + n()); break;
			case 7: line("naddr " + n() + " " + address()); break;
			case 8: case 9: line("nrev " + n() + (r.chance(40) ? " suffix" + std::to_string(t) + ".example" : "")); break;
			case 10: line("ncmp " + n() + " " + n()); break;
			case 11: line("nsub " + n() + " " + n()); break;
			case 12: line("nexc " + n() + " " + n()); break;
			case 13: line("nexl " + n() + " " + n()); break;
			case 14: line("lpush " + n() + " " + n()); break;
			case 15: line(r.chance(50) ? "lall " + n() : r.chance(50) ? "ldump " + n() : "lhas " + n() + " " + n()); break;
			case 16: line(r.chance(60) ? "lpop " + n() + " " + std::to_string(r.below(2)) : "lmerge " + n() + " " + n()); break;
			case 17: line("as " + n() + " " + asn() + " " + name()); break;
			case 18: line(r.chance(50) ? "asx " + n() + " " + n() : "alist " + n()); break;
			case 19: line("aall " + std::to_string(r.below(2)) + " " + asn()); break;
			case 20: line("cc " + n() + " " + code() + " " + cont() + " " + name()); break;
			case 21: line(r.chance(50) ? "ccx " + n() + " " + n() : "clist " + n()); break;
			case 22: line("call " + std::to_string(r.below(2)) + " " + code()); break;
			default: line(r.chance(50) ? "valid " + (r.chance(70) ? code() : string("a") + (char)('a' + r.below(26))) : "prio " + std::to_string(r.below(8))); break;
		}
	}
	void discover() {
		int v = (int)r.below(3);
		static const char* mon[] = {"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"};
		char ts[80]; snprintf(ts, sizeof ts, "Thu, %02d %s %d %02d:%02d:%02d GMT", (int)(1 + r.below(28)), mon[r.below(12)], (int)(2000 + r.below(60)), (int)r.below(24), (int)r.below(60), (int)r.below(60));
		if (r.chance(15)) { line("disc " + std::to_string(v) + " % -1"); return; }
		string q; auto lab = [&](const string& s) { q += (char)s.size(); q += s; };
		auto s16 = [&](int x) { q += (char)(x >> 8); q += (char)x; };
		s16((int)r.below(65536)); s16(0x8180); s16(1); s16(1); s16(0); s16(0);
		lab("_v" + std::to_string(v)); lab("_db"); lab("location"); lab("ipfire"); lab("org"); q += '\0';
		s16(16); s16(1);
		q += (char)0xc0; q += (char)12; s16(16); s16(1); s16(0); s16(300);
		string text = ts; if (r.chance(10)) text = "broken";
		s16((int)text.size() + 1); lab(text);
		line("disc " + std::to_string(v) + " " + enc(q) + " " + std::to_string(q.size()));
	}
	void build_db() {
		line("wnew " + (r.chance(40) ? std::to_string(r.below(4)) : string("-1")) + " -1");
		known_nets.clear(); known_as.clear(); known_cc.clear();
		line("wmeta " + name() + " " + name() + " " + name());
		int na = (int)r.below(6), nc = (int)r.below(5), nn = (int)(1 + r.below(r.chance(20) ? 40 : 8));
		if (r.chance(30)) line("clock " + std::to_string(1600000000 + r.below(200000000)));
		for (int i = 0; i < na; i++) { known_as.push_back(asn()); line("was " + known_as.back() + " " + name()); }
		for (int i = 0; i < nc; i++) { known_cc.push_back(code()); line("wcc " + known_cc.back() + " " + cont() + " " + name()); }
		for (int i = 0; i < nn; i++) {
			string x = network();
			if (!known_nets.empty() && r.chance(40)) { string b = r.pick(known_nets); size_t s = b.find('/'); bool six = b.find(':') != string::npos; int p = atoi(b.c_str() + s + 1); p += (int)r.below(5); if (p > (six ? 128 : 32)) p = six ? 128 : 32; x = b.substr(0, s) + "/" + std::to_string(p); }
			known_nets.push_back(x);
			line("wnet " + x + " " + (known_cc.empty() || r.chance(40) ? code() : r.pick(known_cc)) + " " + (known_as.empty() ? asn() : r.pick(known_as)) + " " + flag());
		}
		line("wwrite");
		line("dopen");
	}
	string addr_of_interest() { return known_nets.empty() || r.chance(20) ? address() : host(r.pick(known_nets)); }
	void use_db() {
		switch (r.below(10)) {
			case 0: case 1: line("look " + addr_of_interest()); break;
			case 2: line("lookb " + addr_of_interest()); break;
			case 3: line("getas " + (known_as.empty() || r.chance(30) ? asn() : r.pick(known_as))); break;
			case 4: line("getcc " + (known_cc.empty() || r.chance(30) ? code() : r.pick(known_cc))); break;
			case 5: line("meta"); break;
			case 6: if (r.chance(40)) { line("verify " + std::to_string(r.below(4))); break; } [[fallthrough]];
			case 7: {
				int mode = (int)(r.chance(60) ? 1 : 1 + r.below(4));
				line("enew " + n() + " " + std::to_string(mode) + " " + std::to_string(r.chance(50)) + " " + (r.chance(25) ? "c" : "-") + " " + (r.chance(15) ? "a" : "-") + " " + std::to_string(r.chance(20) ? 1 << r.below(4) : 0) + " "
					+ std::to_string(r.chance(50) ? 0 : r.chance(50) ? AF_INET : AF_INET6) + " " + (mode == 2 && r.chance(50) ? "Net" : "-"));
				break; }
			default: line("enext " + n() + " " + std::to_string(1 + r.below(12))); break;
		}
	}
	// A short list of operations that all threads perform, each with arguments of its own: collisions are likely
	void program(const vector<int>& recipe) {
		line("ctx " + std::to_string(r.chance(70) ? 3 : 6), false);
		for (int k : recipe) switch (k) {
			case 0: small(); break;
			case 1: discover(); break;
			case 2: build_db(); break;
			case 3: use_db(); break;
			case 4: line("lnew " + n()); break;
			case 5: line("net " + n() + " " + network()); line("nstr " + n()); break;
			case 6: line("ctx 3", false); break;
		}
	}
};

static string gen_plan(uint64_t seed, bool thorough) {
	Gen g(seed);
	int n = g.r.chance(60) ? 2 : (int)(2 + g.r.below(3));
	int mode = (int)(g.r.chance(70) ? 0 : 1 + g.r.below(2));
	static const long ds[] = {1, 3, 10, 40, 200, 1500, 10000};
	long dist = ds[g.r.below(7)];
	static const int hs[] = {0, 20, 50, 90};
	int hot = hs[g.r.below(4)];
	g.o = "run prop=C17 seed=" + std::to_string(g.r.next() >> 16) + " mode=" + std::to_string(mode) + " dist=" + std::to_string(dist) + " hot=" + std::to_string(hot) + "\n";
	g.faults = g.r.chance(25);
	vector<int> recipe;
	int kind = (int)g.r.below(5);
	size_t len = 2 + g.r.below(thorough ? 40 : 16);
	if (kind == 0) { for (size_t i = 0; i < len; i++) recipe.push_back(g.r.chance(20) ? 4 : g.r.chance(30) ? 5 : 0); }
	else if (kind == 1) { recipe.push_back(2); for (size_t i = 0; i < len; i++) recipe.push_back(3); }
	else if (kind == 2) { for (size_t i = 0; i < 1 + len / 4; i++) recipe.push_back(1); }
	else if (kind == 3) { for (size_t i = 0; i < len; i++) recipe.push_back((int)g.r.below(7)); }
	else { recipe.push_back(4); int w = (int)g.r.below(24); (void)w; for (size_t i = 0; i < len; i++) recipe.push_back(g.r.chance(70) ? 5 : 0); }
	bool same = g.r.chance(70);
	for (g.t = 0; g.t < n; g.t++) {
		g.id = 0;
		auto rc = recipe;
		if (!same) for (size_t i = rc.size(); i > 1; i--) std::swap(rc[i - 1], rc[g.r.below(i)]);
		g.program(rc);
	}
	return g.o;
}

static uint64_t run_seed(const string& prop, uint64_t base, uint64_t idx) {
	uint64_t h = base;
	for (unsigned char c : prop) h = mix64(h, c);
	return mix64(h, idx) >> 1;
}

int main(int argc, char** argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (argc < 2) return 2;
	C = (Counters*)mmap(nullptr, sizeof(Counters), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	string cmd = argv[1];
	if (cmd == "seed") { printf("%llu\n", (unsigned long long)run_seed(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10))); return 0; }
	if (cmd == "gen") { fputs(gen_plan(strtoull(argv[3], nullptr, 10), argc > 4 && string(argv[4]) == "thorough").c_str(), stdout); return 0; }
	if (cmd == "exec") {
		bool rec = argc > 3 && string(argv[3]) == "-r";
		verbose = argc > 3 && !rec;
		std::ifstream f(argv[2]); std::stringstream s; s << f.rdbuf();
		// only the last one matters if there are several: nothing is left from one to the next
		string all = s.str(); size_t x = all.rfind("===\n"); if (x != string::npos) all = all.substr(x + 4);
		PlanT p = parse(all);
		if (!p.threads) { printf("OK %016x\n", 0); return 0; }
		if (rec) {
			string o; int st = child(p, -1, o);
			if (st) return st;
			vector<Sw> sw; split(o, p.threads, &sw);
			printf("run prop=C17 fixed\n");
			for (auto& q : p.ops) printf("%s\n", show(q).c_str());
			for (auto& q : sw) printf("sw %d %d %ld %d\n", q.t, q.id, q.k, q.to);
			return 0;
		}
		Result r = run_plan(p);
		if (r.status && r.msg.empty()) { fflush(stdout); _exit(r.status); }
		if (r.status) printf("VIOL %016llx %s\n", (unsigned long long)r.hash, r.msg.c_str());
		else printf("OK %016llx\n", (unsigned long long)r.hash);
		fflush(stdout);
		_exit(r.status ? 1 : 0);
	}
	if (cmd != "run" || argc < 8) return 2;
	uint64_t base = strtoull(argv[3], nullptr, 10), idx = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10), step = strtoull(argv[6], nullptr, 10);
	bool thorough = string(argv[7]) == "thorough";
	double limit = argc > 8 ? atof(argv[8]) : 1e9;
	struct timeval t0; gettimeofday(&t0, nullptr);
	uint64_t runs = 0, ops = 0, checks = 0, faulted = 0, sim_ns = 0;
	std::map<string, uint64_t> shapes;
	auto dump = [&](bool done) {
		uint64_t e = 0; for (auto c : C->edge) e += c;
		printf("STAT runs %llu\nSTAT ops %llu\nSTAT checks %llu\nSTAT errors 0\nSTAT faulted %llu\nSTAT edges %llu\nSTAT edges_total %u\nSTAT steps %llu\nSTAT sim_ns %llu\nSTAT seam %llu\n", (unsigned long long)runs, (unsigned long long)ops, (unsigned long long)checks,
			(unsigned long long)faulted, (unsigned long long)e, guards, (unsigned long long)C->points, (unsigned long long)sim_ns, (unsigned long long)C->shared);
		printf("FAULT preemption %llu\nFAULT preemption-at-shared-memory %llu\nFAULT allocation %llu\nFAULT stalled-thread %llu\n", (unsigned long long)C->preempt, (unsigned long long)C->hot, (unsigned long long)C->alloc, (unsigned long long)C->stall);
		for (auto& i : shapes) printf("SHAPE %s %llu\n", i.first.c_str(), (unsigned long long)i.second);
		if (done) printf("DONE %llu\n", (unsigned long long)idx);
		fflush(stdout);
	};
	for (uint64_t n = 0; n < count; n++, idx += step) {
		struct timeval t; gettimeofday(&t, nullptr);
		if ((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) / 1e6 > limit) break;
		uint64_t seed = run_seed(argv[2], base, idx);
		printf("R %llu %llu\n", (unsigned long long)idx, (unsigned long long)seed);
		PlanT p = parse(gen_plan(seed, thorough));
		uint64_t a0 = C->preempt + C->alloc;
		Result r = run_plan(p);
		runs++; ops += r.ops; checks += r.checks; faulted += C->preempt + C->alloc > a0;
		shapes[std::to_string(p.threads) + "-threads/schedule-" + std::to_string(p.mode)]++;
		if (r.status && r.msg.empty()) { dump(false); fflush(stdout); _exit(r.status); }
		printf("H %016llx\n", (unsigned long long)r.hash);
		if (r.status) { printf("VIOL %llu %s\n", (unsigned long long)seed, r.msg.c_str()); dump(false); _exit(1); }
	}
	dump(true);
	_exit(0);
}
