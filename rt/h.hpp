#ifndef VERIF_H_HPP
#define VERIF_H_HPP
// Harness runtime: seeded case loop, event log, violation reporting, hang watch.
// h.cpp is compiled WITHOUT sanitizer instrumentation so that recording events adds no happens-before edges.
#include <cstdarg>
#include <cstdint>
#include <string>

namespace h {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t operator()(uint64_t n) { return n == 0 ? 0 : next() % n; }
    bool chance(int num, int den) { return int(next() % uint64_t(den)) < num; }
    int range(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---- event log (lock free, relaxed, uninstrumented) -----------------------------------------------------------
struct Ev {
    uint32_t type;
    uint32_t thread;
    uint64_t a, b, c;
};
void ev_reset();
uint64_t ev(uint32_t type, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);  // returns the position
uint64_t ev_count();
const Ev& ev_at(uint64_t i);
uint32_t thread_no();     // small per-case thread number
uint64_t now_ns();        // CLOCK_MONOTONIC

// Uninstrumented relaxed counters (indexable, reset per case)
constexpr int N_COUNTERS = 4096;
int64_t ctr_add(int i, int64_t d);  // returns the new value
int64_t ctr_get(int i);
void ctr_set(int i, int64_t v);
// Uninstrumented unique ids
uint64_t uid();

// Generic delays in reaction bodies. Under the controlled scheduler this is n scheduling points.
void work(uint64_t r);

// ---- results --------------------------------------------------------------------------------------------------
// Report a violation of the property under check in the current case. kind is a stable key.
void viol(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* key, int64_t add = 1);     // accumulates named coverage counters
void note_max(const char* key, int64_t v);
void sig(uint64_t signature);                    // distinct behaviour signature
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool failed();
void progress();                                  // for the hang watch

struct Args {
    std::string mode;
    uint64_t seed  = 1;
    uint64_t first = 0;
    uint64_t count = 1;
    std::string out;
    bool thorough  = false;
    bool verbose   = false;
    std::string extra;
    int hang_secs  = 8;      // quiescence (all threads asleep, no CPU) needed to call a hang
    int case_secs  = 90;     // absolute limit for a case (reported as inconclusive)
    bool fork      = true;   // controlled scheduler: run every case in a child process
    bool quiesce   = true;   // whether to use quiescence based hang detection
};
extern Args args;
extern uint64_t case_no;

// Runs cases; run_case gets a seeded generator unique for (seed, mode, case)
int main_loop(int argc, char** argv, void (*run_case)(Rng& rng));

// Begin/end of a controlled schedule for this case (no-ops in other builds)
void sched_begin(Rng& rng, uint64_t expected_len = 4000);
void sched_end();
extern uint64_t sched_late_max;  // set before sched_begin: how late (virtual ns) timed waits may end
extern uint64_t sched_fair_after;  // 0: default
bool controlled();
// Extra description printed when a hang/deadlock is found
extern void (*describe_state)(std::string& out);
// Replaces the kind for a deadlock ("hang" by default)
extern const char* hang_kind;

}  // namespace h
#endif
