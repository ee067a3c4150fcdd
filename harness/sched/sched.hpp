// Controlled scheduler: explores all interleavings of a multi-threaded body on the real code.
//
// The executable defines the pthread functions itself. Inside `explore()` every thread is a fiber, exactly one
// runs at a time, and at each visible operation (lock, wait, notify, create, join, atomic, marked event) the
// explorer chooses which one goes on. The executions are enumerated depth-first, statelessly, by replaying a prefix
// of choices; a prefix whose happens-before graph (hence whose state) was already explored with at least the same
// remaining preemption budget is not explored again.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Options {
    int preemptions = 2;        ///< max. number of switches away from a thread which could go on; < 0: unbounded
    int spurious = 0;           ///< max. number of spurious wakeups per execution
    std::size_t max_steps = 20000; ///< longer executions count as non-terminating
    bool atomic_points = true;  ///< switch threads before atomic operations
    double time_limit = 0;      ///< seconds, 0: none; reaching it makes the exploration incomplete
    int single = 0;             ///< > 0: run only one schedule, of this fixed kind (1: first, 2: last, 3: rotating choice)
    std::vector<int> replay;    ///< if not empty: run only this schedule
};

struct Stats {
    std::uint64_t executions = 0;   ///< executions run (to the end or until pruned)
    std::uint64_t completed = 0;    ///< executions which ran to the end
    std::uint64_t pruned = 0;       ///< cut because an equivalent prefix was already explored
    std::uint64_t transitions = 0;  ///< visible operations executed
    std::uint64_t states = 0;       ///< distinct happens-before states at which there was a choice
    std::uint64_t max_steps = 0;    ///< longest execution
    std::uint64_t accesses = 0;     ///< memory accesses checked for races
    bool complete = true;           ///< the space within the bounds was exhausted
    bool failed = false;
    bool first = false;             ///< it was the very first execution, which also initializes function-local statics
    std::string what;               ///< first failure
    std::vector<int> schedule;      ///< choices which lead to it
};

/// Run `body` under all schedules. `after` runs at the end of each complete execution, outside of any
/// fiber, and returns a non-empty string if the outcome is wrong. After a failure the process state is
/// unusable (abandoned fibers): report and exit.
Stats explore(Options const& options, std::function<void()> const& body,
              std::function<std::string()> const& after);

/// Inside the body: a visible operation on `object` (orders it with other events on the same object)
void event(void const* object);
/// Inside the body: bookkeeping of the harness in this scope is not checked for races
struct Quiet { Quiet(); ~Quiet(); };
/// Inside the body: report a property violation and end the exploration
void fail(std::string const& what);
/// Inside the body: index of the running thread (0 = main)
int self();
/// The choices made so far, kept in memory which the parent of a forked worker can read
struct Shared { int n; int choices[4096]; char note[512]; };
void set_shared(Shared* s);

} // namespace sched
