// Deterministic controlled-schedule runtime used to record traces of the real NUClear code.
// See DESIGN.md, section "Binding".
#ifndef VP_HPP
#define VP_HPP
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <poll.h>

namespace vp {

struct Opts {
    uint64_t seed        = 1;
    bool time_jitter     = false;  // let virtual time advance while threads are runnable
    bool allow_spurious  = true;   // inject spurious condition variable wakeups
    bool plain           = true;   // allow preemption at plain (non atomic) memory accesses
    int calm             = 0;      // 1: never preempt voluntarily (only when blocked); for sequential replays
    uint64_t max_steps   = 400000;
};

// Make the calling thread simulated thread 0 and start controlling the schedule.
void start(const Opts& opts, char* buf, size_t cap, size_t* len);
bool active();
// Append one record to the trace. Never a scheduling point.
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// simulated thread number of the caller (creation order), -1 when not simulated
int tid();
// Block until no other simulated thread can make progress without time passing.
// Returns false if the only way on would have been a timer (time is NOT advanced past it).
bool quiesce();
// as above but refuses (returns) as soon as everything else is blocked on timers or forever
void yield();
void sleep_ns(uint64_t ns);
uint64_t now();          // virtual nanoseconds since start
uint32_t rnd(uint32_t n);  // scenario randomness (does not perturb the schedule stream)
void end_run(const char* why);  // log {"e":"<why>"} and terminate the child process

// Network/poll extension points (used by vpnet)
extern int (*poll_hook)(struct pollfd*, nfds_t);
void fd_event();  // something happened that may change readiness
// Block until pred() is true (pred evaluated by the scheduler; must be side-effect free) or deadline (ns, 0 = none)
bool block_until(const std::function<bool()>& pred, uint64_t deadline);
uint64_t steps();
extern std::atomic<int> guard;   // allocations made while set end at an inaccessible page
// While one exists its thread is not interrupted
struct Hold { Hold(); ~Hold(); };
void set_pthread_inherit(int v);
int inherited();   // value inherited by threads from their creator ("node" id)
void set_inherited(int v);

// Runs body(i) for i in [0,n) each in a forked child, at most `jobs` at a time, and writes the traces to `out`,
// one line per run, in index order: {"i":..,"end":"ok|crash:SIG|deadlock|hang|timeout","ev":[...]}
int run_many(int n, int jobs, const char* out, unsigned timeout_s, const std::function<void(int, char*, size_t, size_t*)>& body);

}  // namespace vp
#endif
