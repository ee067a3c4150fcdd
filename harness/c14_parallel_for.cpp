// C14: parallel_for -- every interleaving of its threads, on the real code
#include "pbv.hpp"
#include "sched/sched.hpp"
#include "support/simd.hpp"
#include "detail/thread.hpp"
#include "sched_job.hpp"

namespace {

struct Config { int jobs, threads, queue, preemptions, spurious; bool events; int single; };

struct Log {
    std::vector<int> produced, computed, retired, retired_value;
    std::vector<int> producer_threads, retire_threads;
    int in_retire = 0, in_flight = 0, max_in_flight = 0;
    bool returned = false;
    std::string error;
};

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per (jobs, threads, queue size, preemption bound, spurious wakeups); every case explores all interleavings within its bound (or, for the bigger configurations, three fixed schedules); "
                "distinct = final observation sequences (order of computes and retirements)";
    info.states = "states"; info.transitions = "transitions"; info.traces = "executions";
    info.assumptions = {"sequential consistency between synchronization operations; data races, which would break it, are detected by vector clocks in every explored execution",
                        "the state cache compares 64-bit hashes of happens-before graphs"};
    return pbv::run(argc, argv, "C14", info, [](pbv::Worker& w) {
        std::vector<Config> cs;
        auto const deep = w.ctx.thorough();
        // preemption bounds [threads - 1][jobs]; -1: none (all interleavings)
        static int const quick[3][5] = {{-1, -1, -1, 3, 1}, {2, 2, 1, 0, -2}, {1, 0, 0, 0, -2}};
        static int const full[3][5] = {{-1, -1, -1, 4, 3}, {4, 3, 2, 1, 0}, {2, 1, 1, 0, 0}};
        for (int jobs = 0; jobs <= 4; ++jobs) {
            for (int threads = 1; threads <= 3; ++threads) {
                for (int queue = 0; queue <= 3; ++queue) {
                    if (queue > jobs && queue != threads) { continue; }  // never full
                    if (queue == threads) { continue; }                  // the same as 0
                    auto const p = (deep ? full : quick)[threads - 1][jobs];
                    if (p < -1) { continue; }
                    if (queue > 0 && threads == 3 && (p > 0 || jobs == 3) && !deep) { continue; }
                    cs.push_back({jobs, threads, queue, p, 0, false, 0});
                    // callbacks observed as visible operations; spurious wakeups
                    auto const p2 = p < 0 ? 2 : p > 0 ? p - 1 : 0;
                    if (jobs > 0 && jobs + threads <= (deep ? 5 : 4)) { cs.push_back({jobs, threads, queue, p2, 0, true, 0}); }
                    if (jobs + threads <= (deep ? 5 : 4)) { cs.push_back({jobs, threads, queue, p2, 1, false, 0}); }
                }
            }
        }
        // most expensive first
        std::stable_sort(cs.begin(), cs.end(), [](Config const& a, Config const& b) { 
            return std::make_tuple(-a.single, a.jobs + a.threads) > std::make_tuple(-b.single, b.jobs + b.threads); });
        // three fixed schedules of bigger configurations
        for (int jobs = 0; jobs <= (deep ? 60 : 20); jobs = jobs < 6 ? jobs + 1 : jobs + 7) {
            for (int threads = 1; threads <= 8; ++threads) {
                for (int queue = 0; queue <= 9; ++queue) {
                    for (int single = 1; single <= 3; ++single) { cs.push_back({jobs, threads, queue, -1, 0, false, single}); }
                }
            }
        }
        if (auto e = std::getenv("PBV_CONFIG")) {   // for measurements: jobs threads queue preemptions spurious events
            Config c; int ev; std::istringstream(e) >> c.jobs >> c.threads >> c.queue >> c.preemptions >> c.spurious >> ev; c.events = ev; cs = {c};
        }
        for (auto const& c : cs) {
            auto const text = [&] { return pbv::str("parallel_for jobs=", c.jobs, " threads=", c.threads, " queue=", c.queue,
                                                    " preemptions=", c.preemptions, " spurious=", c.spurious, c.events ? " observed" : "", c.single ? " fixed schedule " : "", c.single ? std::to_string(c.single) : ""); };
            if (!w.next(text)) { continue; }
            Log log;
            std::string err;
            auto const expect = [&](bool ok, char const* what) { if (!ok) { sched::fail(what); } };
            auto const body = [&] {
                { sched::Quiet q; log = Log(); }
                auto const bound = (c.queue > 0 ? c.queue : c.threads) + c.threads + 1;
                cpb::parallel_for(
                    static_cast<size_t>(c.jobs), static_cast<size_t>(c.threads), static_cast<size_t>(c.queue),
                    [&](size_t id) -> int {
                        if (c.events) { sched::event(&log); }
                        sched::Quiet q;
                        expect(id == log.produced.size(), "jobs are not produced in order, each once");
                        log.producer_threads.push_back(sched::self());
                        log.produced.push_back(static_cast<int>(id));
                        log.max_in_flight = std::max(log.max_in_flight, ++log.in_flight);
                        expect(log.in_flight <= bound, "too many jobs are in flight");
                        return 100 + static_cast<int>(id);
                    },
                    [&](int& v) {
                        {
                            sched::Quiet q;
                            expect(v >= 100 && v < 100 + c.jobs, "a job is computed on a value which was not produced (or twice)");
                            for (auto x : log.computed) { expect(x != v, "a job is computed twice"); }
                            log.computed.push_back(v);
                        }
                        if (c.events) { sched::event(&log); }   // other threads may run while this is being computed
                        v += 1000;
                        sched::Quiet q;
                        --log.in_flight;
                    },
                    [&](int v, size_t id) {
                        { sched::Quiet q; expect(++log.in_retire == 1, "two jobs retire at the same time"); }
                        if (c.events) { sched::event(&log.in_retire); }
                        sched::Quiet q;
                        expect(v == 1100 + static_cast<int>(id), "a job retires with a value which is not its own computed value");
                        for (auto x : log.retired) { expect(x != static_cast<int>(id), "a job retires twice"); }
                        log.retire_threads.push_back(sched::self());
                        log.retired.push_back(static_cast<int>(id));
                        expect(!log.returned, "a job retires after the call returned");
                        --log.in_retire;
                    });
                sched::Quiet q;
                log.returned = true;
            };
            auto const after = [&]() -> std::string {
                auto const n = static_cast<size_t>(c.jobs);
                if (log.produced.size() != n) { return "not all jobs were produced"; }
                if (log.computed.size() != n) { return "not all jobs were computed"; }
                if (log.retired.size() != n) { return "not all jobs were retired"; }
                for (auto t : log.producer_threads) { if (t != log.producer_threads[0]) { return "jobs are produced by several threads"; } }
                for (auto t : log.retire_threads) { if (t != log.retire_threads[0]) { return "jobs are retired by several threads"; } }
                pbv::u64 h = static_cast<pbv::u64>(c.jobs * 100 + c.threads * 10 + c.queue);
                for (auto x : log.computed) { h = pbv::mix(h, static_cast<pbv::u64>(x)); }
                for (auto x : log.retired) { h = pbv::mix(h, static_cast<pbv::u64>(x) + 7777); }
                w.distinct(h);
                return "";
            };
            run_schedules(w, c.preemptions, c.spurious, true, body, after, 0, c.single);
            w.maximum("in flight", static_cast<pbv::u64>(log.max_in_flight));
        }
    });
}
