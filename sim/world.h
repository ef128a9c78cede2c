#pragma once
#include "model.h"
#include "seam.h"
#include <string>
#include <vector>

struct Op {
	std::vector<std::string> a;
	std::vector<Fault> faults;
};
typedef std::vector<Op> Plan;

Plan plan_parse(const std::string& text);
std::string plan_str(const Plan& p);
Op op(const std::string& line);

// String literals in plans
std::string str_encode(const std::string& s);
std::string str_decode(const std::string& s);

struct RunResult {
	bool violated = false;
	std::string msg;
	uint64_t hash = 0;
	size_t ops = 0;              // operations that did something
	size_t checks = 0;           // answers compared with the model
	size_t error_returns = 0;    // operations that reported an error because of a fault
	int64_t sim_ns = 0;
	std::set<std::string> shapes;  // (operation, fault, outcome) combinations
	std::vector<std::vector<Contexts>> contexts;   // where these came from, if it has been recorded
	std::vector<std::vector<long>> counts;   // seam calls per op and kind
};
RunResult run_plan(const Plan& p);

std::string gen_plan(const std::string& prop, uint64_t seed, bool thorough);
