// locsim run PROP BASE FROM COUNT STEP thorough|quick  - simulates runs FROM, FROM+STEP, ... (COUNT of them)
// locsim gen PROP SEED thorough|quick                  - prints the plan of a seed
// locsim exec PLANFILE [-v]                            - executes a plan
#include "world.h"
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
using std::string;

static void watchdog(int) { static const char m[] = "\nHANG no progress\n"; (void)!write(1, m, sizeof(m) - 1); _exit(78); }
static void arm(int s) { signal(SIGALRM, watchdog); alarm(s); }

static uint64_t run_seed(const string& prop, uint64_t base, uint64_t idx) {
	uint64_t h = base;
	for (unsigned char c : prop) h = mix64(h, c);
	return mix64(h, idx) >> 1;
}
static string slurp(const char* fn) { std::ifstream f(fn); std::stringstream s; s << f.rdbuf(); return s.str(); }

int main(int argc, char** argv) {
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (argc < 2) return 2;
	string cmd = argv[1];
	sim_reset(1);
	if (getenv("LOCSIM_CAP")) sim_edge_cap = strtoull(getenv("LOCSIM_CAP"), nullptr, 10);
	if (cmd == "seed") { printf("%llu\n", (unsigned long long)run_seed(argv[2], strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10))); return 0; }
	if (cmd == "gen") { fputs(gen_plan(argv[2], strtoull(argv[3], nullptr, 10), argc > 4 && string(argv[4]) == "thorough").c_str(), stdout); return 0; }
	if (cmd == "exec") {
		if (argc > 3) verbose = true;
		// a file may hold several plans that are executed one after another
		string all = slurp(argv[2]), part;
		std::vector<string> parts(1);
		std::istringstream in(all);
		while (std::getline(in, part)) { if (part == "===") parts.push_back(""); else parts.back() += part + "\n"; }
		RunResult r;
		for (auto& t : parts) { arm(240); r = run_plan(plan_parse(t)); if (r.violated) break; }
		if (r.violated) printf("VIOL %016llx %s\n", (unsigned long long)r.hash, r.msg.c_str());
		else printf("OK %016llx\n", (unsigned long long)r.hash);
		fflush(stdout);
		_exit(r.violated ? 1 : 0);
	}
	if (cmd != "run" || argc < 8) return 2;
	string prop = argv[2];
	uint64_t base = strtoull(argv[3], nullptr, 10), from = strtoull(argv[4], nullptr, 10), count = strtoull(argv[5], nullptr, 10), step = strtoull(argv[6], nullptr, 10);
	bool thorough = string(argv[7]) == "thorough";
	double limit = argc > 8 ? atof(argv[8]) : 1e9;
	struct timeval t0; gettimeofday(&t0, nullptr);
	std::map<string, uint64_t> shapes;
	uint64_t runs = 0, ops = 0, checks = 0, errors = 0, faulted = 0;
	uint64_t idx = from;
	auto dump = [&](bool done) {
		printf("STAT runs %llu\nSTAT ops %llu\nSTAT checks %llu\nSTAT errors %llu\nSTAT faulted %llu\nSTAT edges %zu\nSTAT edges_total %zu\nSTAT steps %llu\nSTAT maxsteps %llu\nSTAT sim_ns %lld\nSTAT seam %llu\n",
			(unsigned long long)runs, (unsigned long long)ops, (unsigned long long)checks, (unsigned long long)errors, (unsigned long long)faulted,
			sim_edges_hit(), sim_edges_total(), (unsigned long long)stats.edges, (unsigned long long)stats.max_edges_op, (long long)stats.sim_ns, (unsigned long long)stats.seam_calls);
		for (auto& i : stats.injected_by) printf("FAULT %s %llu\n", i.first.c_str(), (unsigned long long)i.second);
		for (auto& i : shapes) printf("SHAPE %s %llu\n", i.first.c_str(), (unsigned long long)i.second);
		if (done) printf("DONE %llu\n", (unsigned long long)idx);
		fflush(stdout);
	};
	for (uint64_t n = 0; n < count; n++, idx += step) {
		struct timeval t; gettimeofday(&t, nullptr);
		if ((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) / 1e6 > limit) break;
		uint64_t seed = run_seed(prop, base, idx);
		printf("R %llu %llu\n", (unsigned long long)idx, (unsigned long long)seed);
		arm(240);
		string plan = gen_plan(prop, seed, thorough);
		uint64_t inj = 0; for (auto& i : stats.injected_by) inj += i.second;
		RunResult r = run_plan(plan_parse(plan));
		uint64_t inj2 = 0; for (auto& i : stats.injected_by) inj2 += i.second;
		runs++; ops += r.ops; checks += r.checks; errors += r.error_returns; faulted += inj2 > inj;
		for (auto& s : r.shapes) shapes[s]++;
		printf("H %016llx\n", (unsigned long long)r.hash);
		if (r.violated) {
			printf("VIOL %llu %s\n", (unsigned long long)seed, r.msg.c_str());
			dump(false);
			_exit(1);
		}
	}
	dump(true);
	_exit(0);
}
