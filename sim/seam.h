// locsim - the seams between libloc and the outside world, with fault injection.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sys/types.h>

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
	bool chance(unsigned percent) { return below(100) < percent; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

static inline uint64_t mix64(uint64_t a, uint64_t b) {
	Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x632BE59BD9B4E019ull));
	return r.next();
}

enum FaultKind {
	F_ALLOC, F_WRITE, F_READ, F_SEEK, F_CLOSE, F_MMAP, F_DUP, F_FDOPEN, F_LSEEK, F_MADVISE, F_CRYPTO, F_FULL,
	F_KINDS
};
extern const char* const fault_names[F_KINDS];

struct Fault {
	FaultKind kind;
	long nth;          // the nth call of this kind in the operation (from 1), or the capacity for F_FULL
	std::string arg;   // "1", "s" (sticky until the operation ends), EIO, ENOSPC, EINTR, short, torn
	long hits = 0;
	bool fired = false;
};

struct LogRec { off_t off; std::string data; };

struct SimFile {
	int id = 0;
	int fd = -1;
	ino_t ino = 0;
	int64_t capacity = -1;
	bool logging = false;
	std::vector<LogRec> log;
	~SimFile();
	std::string bytes() const;
	void set(const std::string& b);
	size_t size() const;
};

struct SimStats {
	uint64_t injected[F_KINDS] = {0};        // faults that actually hit a call
	std::map<std::string, uint64_t> injected_by; // kind:arg
	uint64_t seam_calls = 0;
	uint64_t edges = 0;                       // basic block edges of the library executed
	uint64_t max_edges_op = 0;
	int64_t sim_ns = 0;                       // simulated time that passed
};
extern SimStats stats;

// Event history of a run
extern uint64_t event_hash;
extern bool verbose;
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct Violation { std::string tag, msg; };
[[noreturn]] void violation(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

void sim_reset(uint64_t seed);          // at the start of each run
void sim_op_begin(std::vector<Fault>* faults);
void sim_op_end();
bool sim_fault_fired();                  // did any fault hit in the current/last operation?
bool sim_error_fault_fired();            // same, ignoring those that only split I/O
// Where the calls of the current/last operation came from: for every kind and every distinct chain of callers, which
// calls (from 1) these were. Only if it is being recorded.
typedef std::vector<std::vector<long>> Contexts;
extern bool sim_record_contexts;
const Contexts& sim_op_contexts(int kind);
const long* sim_op_counts();             // calls per kind in the current/last operation
extern uint64_t sim_edge_cap;

std::shared_ptr<SimFile> sim_file_new();
FILE* sim_stream(SimFile* f, const char* mode, long bufsize);   // caller's stream; closed with sim_stream_close
int sim_stream_close(FILE* f);

int64_t sim_clock_ns();
void sim_clock_set(int64_t ns);
void sim_clock_add(int64_t ns);

struct SimLeaks { size_t allocs, bytes, fds, streams, maps; };
SimLeaks sim_live();                     // what the library currently holds

size_t sim_edges_total();                // number of instrumented edges
size_t sim_edges_hit();                  // distinct edges hit since the process has been started
void sim_edges_dump(const char* path);

// Resolver script
struct DnsScript {
	int init_result = 0;
	int result = 0;          // <0: fail; otherwise length to report (may exceed the buffer)
	int herrno = 0;
	std::string reply;
	// filled in
	int queries = 0;
	std::string name;
	int cls = 0, type = 0;
};
extern DnsScript dns;
