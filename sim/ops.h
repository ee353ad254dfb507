#pragma once
#include "sim.h"
#include "gen.h"
#include "ref.h"

struct Op { std::string kind; std::map<std::string, std::string> a;
    std::string g(const std::string &k, const std::string &d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
    long n(const std::string &k, long d = 0) const { auto i = a.find(k); return i == a.end() ? d : atol(i->second.c_str()); } };
struct Plan {
    std::string check; uint64_t seed = 0; unsigned core = 5000, files = 50;
    std::vector<RpmSpec> rpms; std::vector<Op> ops; std::vector<Fault> faults;
};
std::string plan_text(const Plan &);
bool plan_parse(const std::string &, Plan &);

struct OpInfo { std::string kind; int rc = -1; uint64_t cnt[C_N] = {0}; };
struct Result {
    bool violated = false; std::string vclass, vmsg; bool internal = false; std::string imsg;
    uint64_t hash = 0, state = 0, steps = 0; uint64_t fired[F_KN] = {0}; std::vector<OpInfo> ops;
    std::map<std::string, uint64_t> notes;
};
// child side
void prebuild(const Plan &p);                      // packages shared by the following runs
void execute(const Plan &p);                       // runs in the forked child; reports on result_fd
extern int result_fd;
void note(const char *what, uint64_t n = 1);
// parent side
Result run_plan(const Plan &p, bool verbose = false);
Plan gen_plan(const std::string &check, uint64_t seed, bool thorough);
void add_faults(Plan &p, Rng &r, const Result &probe);
bool wants_faults(const std::string &check);
int fault_variants(const std::string &check);
void vfs_mutate(const std::string &m);
void dump_ring(FILE *f);
