// Bounded exhaustive explorer for real code. See DESIGN.md ("Engine").
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

// ---- choices -------------------------------------------------------------
// Every nondeterministic decision of a harness goes through mc_choose; the
// engine enumerates all of them.
int mc_choose(int n);
// A deviation from the default answer of the environment; offered only while
// the fault budget of the execution is not used up.
bool mc_fault();
void mc_fault_budget(int n);
int mc_faults_used();

// ---- verdicts ------------------------------------------------------------
[[noreturn]] void mc_fail(const char *sig, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define MC_CHECK(cond, sig, ...)                                               \
    do {                                                                       \
        if (!(cond))                                                           \
            mc_fail(sig, __VA_ARGS__);                                         \
    } while (0)
// Ends this execution without a verdict (uninteresting choice combination).
[[noreturn]] void mc_prune();

// ---- bookkeeping ---------------------------------------------------------
// One transition (operation) of the explored system; fmt must be a literal
// using only %ld/%lx conversions.
void mc_op(const char *fmt, long a = 0, long b = 0, long c = 0, long d = 0);
void mc_state(uint64_t h);   // registers a distinct abstract state
void mc_outcome(uint64_t h); // registers a distinct observable outcome
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool mc_replaying();
bool mc_thorough();
long mc_param(const char *name, long dflt);

static inline uint64_t mc_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}

struct mc_scenario {
    const char *name;
    void (*body)();
    bool fork_each = false;  // every execution in its own process
    void (*setup)() = nullptr; // run once per worker before forking
    int fault_budget = 0;
};
int mc_main(int argc, char **argv, std::vector<mc_scenario> scenarios);

// ---- internal, shared with the scheduler ---------------------------------
int mc_choose_costed(int n, int budget_left_is_zero);
bool mc_is_worker();
// learned scheduling points (program counters of racing plain accesses)
bool mc_pc_is_point(uintptr_t pc);
void mc_pc_learn(uintptr_t pc);
void mc_count_step();
