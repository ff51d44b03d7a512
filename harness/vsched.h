// Deterministic cooperative scheduler for the real eckit code (see DESIGN.md, "controlled schedules").
// The pthread API is interposed by sched.cc; code compiled with -fsanitize=thread calls the __tsan_* hooks
// which sched.cc defines as preemption points (libtsan itself is not linked).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace vsched {

enum Mode { Random = 0, Pct = 1, Dfs = 2 };

struct Config {
    Mode mode          = Random;
    uint64_t seed      = 1;
    int pct_depth      = 3;       // number of priority change points
    long steps_hint    = 2000;    // estimated number of scheduling points (PCT)
    int switch_sync    = 50;      // Random: % chance to switch at a synchronisation point
    int switch_mem     = 30;      // Random: 1/1000 chance to switch at a memory access
    int spurious       = 0;       // 1/1000 chance per sync point of a spurious condition wakeup
    long max_steps     = 400000;  // scheduling steps before "limit"
    int preemptions    = 2;       // Dfs: preemption bound
    bool mem           = true;    // memory accesses are scheduling points
};

// -- event log (shared with the parent)
void emit(const std::string& json);  // one JSON object, without newline

int self();               // scheduler thread id (0 = main)
bool active();
void yield_hint();        // explicit scheduling point (an atomic step of a simulated device)
struct NoYield {          // no preemption in this scope
    NoYield();
    ~NoYield();
};
// block the caller until pred() holds (pred evaluated by the scheduler with no preemption)
void block_until(const std::function<bool()>& pred, const char* why);

// Run body under the scheduler in the calling (forked child) process, then _exit.
// on_stuck is called when no thread can run: it must emit the terminal event.
[[noreturn]] void run(const Config& c, const std::function<void()>& body,
                      const std::function<void(const char* why)>& on_stuck);

struct Stats {
    long steps;
    long switches;
    int threads;
};
Stats stats();

// Drive scenario over many schedules.  argv: see explore() in sched.cc
//   --n N --seed S --mode random|pct|dfs|mix --out FILE --scenario NAME
struct Explorer {
    int n            = 100;
    uint64_t seed    = 1;
    std::string mode = "mix";
    std::string out  = "/dev/stdout";
    int timeout_s    = 60;
    long max_steps   = 400000;
    int preemptions  = 2;
    int spurious     = 0;
    bool mem         = true;
    long first       = 0;  // first schedule index (replay a single one with n=1)
};
// runs body() under N schedules, each in a forked child; writes one line per schedule to out:
//   {"i":k,"ev":[...]}   with the events emitted (crash/timeouts appended as events)
long explore(const Explorer& x, const std::function<void()>& body, const std::function<void(const char*)>& on_stuck,
             const std::string& tag);

}  // namespace vsched
