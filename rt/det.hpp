#ifndef VERIF_DET_HPP
#define VERIF_DET_HPP
// Controlled scheduler: a drop-in replacement for the ThreadSanitizer runtime plus pthread interposition.
// Code compiled with -fsanitize=thread calls us at each atomic operation; pthread calls are interposed by symbol.
// While enabled exactly one thread runs at a time, and a seeded strategy decides who runs next.
#include <cstdint>
#include <string>

namespace det {
struct Options {
    uint64_t seed        = 1;
    int strategy         = 0;      // 0 random walk, 1 PCT
    unsigned switch_inv  = 8;      // random walk: switch with probability 1/switch_inv
    int pct_depth        = 3;      // PCT: number of priority change points
    uint64_t pct_len     = 5000;   // PCT: assumed number of steps
    uint64_t max_steps   = 3000000;
    unsigned spurious_inv = 0;     // probability of spurious condition wakeups per step (0 = never)
    uint64_t fair_after  = 20000;  // a thread that ran this many steps in a row lets others run
    uint64_t late_max    = 0;      // timed waits and sleeps end up to this many ns late
    uint64_t clock_cost  = 100;    // virtual ns a clock reading takes
};
struct Result {
    uint64_t steps    = 0;
    uint64_t switches = 0;
    uint64_t hash     = 0;  // hash of the schedule actually taken
};
// True in binaries linked with the controlled scheduler
bool available();
void begin(const Options& o);
Result end();
bool active();
// Virtual time since the beginning of the run, without a scheduling point
uint64_t vtime();
// A scheduling point from harness code
void point();
// Called when no thread can ever run again; must not return
extern void (*on_deadlock)(const std::string& description);
extern void (*on_livelock)(const std::string& description);
}  // namespace det
#endif
