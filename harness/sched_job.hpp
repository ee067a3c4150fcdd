#pragma once
#include "pbv.hpp"
#include "sched/sched.hpp"

/// Explore one configuration and account for it in the worker
inline bool run_schedules(pbv::Worker& w, int preemptions, int spurious, bool atomic_points,
                          std::function<void()> const& body, std::function<std::string()> const& after,
                          double time_limit = 0, int single = 0) {
    sched::Options o;
    o.preemptions = preemptions; o.spurious = spurious; o.atomic_points = atomic_points;
    o.time_limit = time_limit; o.single = single;
    pbv::u64 k = 0;
    auto const s = sched::explore(o, body, [&] { if ((++k & 1023) == 0) { w.progress(); } return after(); });
    w.count("executions", s.executions);
    w.count("executions to the end", s.completed);
    w.count("pruned as equivalent", s.pruned);
    w.count("transitions", s.transitions);
    w.count("states", s.states);
    w.count("memory accesses checked for races", s.accesses);
    w.maximum("visible operations in an execution", s.max_steps);
    if (!s.complete) { w.count("incomplete"); }
    if (w.ctx.verbose) {
        std::fprintf(stderr, "%s: %llu executions (%llu complete), %llu states, %llu transitions\n", w.current.c_str(),
            (unsigned long long)s.executions, (unsigned long long)s.completed, (unsigned long long)s.states, (unsigned long long)s.transitions);
    }
    if (s.failed) {
        std::string sch;
        for (auto c : s.schedule) { sch += std::to_string(c) + " "; }
        auto const what = s.what + "\nschedule (choice at each point where several threads could go on): " + sch;
        // the same schedule must fail again before it is believed
        o.replay = s.schedule; o.single = 0;
        std::string again = s.what;
        if (!s.schedule.empty() && !s.first) { again = sched::explore(o, body, after).what; }
        if (again.empty()) { std::fprintf(stderr, "schedule does not replay: '%s' then '%s'\n", s.what.c_str(), again.c_str()); std::_Exit(3); }
        w.violation("schedule", what);
    }
    return !s.failed;
}
