// Deterministic user-level scheduler.
//
// While active, exactly one thread of the process runs at a time.  Threads
// give up the processor when they sleep, block on a mutex / rwlock / condition
// / join, spin-wait, or when their quantum of coverage callbacks is used up
// (preemptive policies).  Time is virtual: it advances by `tick_ns` per
// coverage callback and jumps to the next wake-up when nobody can run.
// Everything is a function of the seed.
#pragma once
#include <cstdint>

namespace vsched {

enum class policy : int {
    coop = 0, // switch only when a thread waits
    rand = 1, // random quantum, uniformly chosen next thread
    pct = 2,  // random priorities with a few priority-change points
};

struct params {
    std::uint64_t seed{1};
    policy pol{policy::coop};
    std::uint32_t quantum{200};     // mean callbacks per slice (rand)
    std::uint32_t change_points{3}; // pct
    std::uint64_t pct_len{20000};   // pct: expected callbacks of the run
    std::uint32_t tick_ns{50};      // virtual ns per callback
    std::uint64_t max_callbacks{400000000ULL};
    std::uint64_t max_virtual_ns{3600ULL * 1000000000ULL};
    std::uint64_t crash_at{0}; // >0: _exit(77) at that many callbacks
    std::uint64_t stall_at{0}; // >0: the thread running then sleeps stall_ns
    std::uint64_t stall_ns{0};
    bool turns{false}; // coop: the thread that has waited longest runs next
};

enum class stop_reason : int { none = 0, deadlock = 1, callbacks = 2, time = 3 };

/// make the calling thread the only managed thread and switch scheduling on
void start(params const& p);
/// switch scheduling off (all other managed threads must be finished)
void stop();
bool active();
std::uint64_t now_ns();
std::uint64_t callbacks();
std::uint64_t switches();
/// count of preemptions at coverage callbacks
std::uint64_t preemptions();
/// sleep in virtual time
/// the thread running n callbacks from now sleeps
void arm_stall(std::uint64_t n);
void sleep_ns(std::uint64_t ns);
/// called (once) when a bound is hit or no thread can run; must not return
void set_stuck_handler(void (*h)(stop_reason, char const* detail));
/// called at the crash point; must not return
void set_crash_handler(void (*h)());
/// the process is cut off now
void crash();
/// calls made inside are not preempted (nestable, per thread)
void no_preempt(bool on);
/// from now on never preempt (used for the epilogue of a case)
void set_policy(policy p);
/// number of the calling managed thread, -1 if none
int self();

} // namespace vsched
