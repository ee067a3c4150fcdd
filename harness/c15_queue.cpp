// C15: the work queue and the thread pool -- every interleaving, on the real code
#include "support/simd.hpp"
#include "detail/thread.hpp"
#include "sched_job.hpp"

namespace {

using cpb::detail::Queue;
using cpb::detail::QueueGuard;

void expect(bool ok, char const* what) { if (!ok) { sched::fail(what); } }

struct Program {
    std::string kind;
    int producers, items, consumers, capacity;   // queue programs; pool: producers = threads, items = tasks
    int variant, preemptions, spurious, single;
};

struct Log {
    std::vector<std::vector<int>> pushed, popped;
    int open_producers = 0;         // producers which have registered and not left
    int remaining_producers = 0;    // producers which have not left
    int pushes = 0, pops = 0;      // pushes which returned, pops which were entered
    std::vector<int> ran;
    bool joined = false;
};

template<class F> bool with_program(pbv::Worker& w, Program const& p, F body_of, Log& log) {
    (void)log;
    auto const text = [&] {
        return pbv::str(p.kind, " ", p.kind == "queue" ? "producers=" : "threads=", p.producers, " items=", p.items, " consumers=", p.consumers,
                        " capacity=", p.capacity, " variant=", p.variant, " preemptions=", p.preemptions, " spurious=", p.spurious,
                        p.single ? " fixed schedule " : "", p.single ? std::to_string(p.single) : "");
    };
    if (!w.next(text)) { return false; }
    body_of(p);
    return true;
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per producer/consumer program or thread pool program; every case explores all interleavings within its preemption bound (-1: all); "
                "distinct = final distributions of the items over the consumers (or tasks over the threads)";
    info.states = "states"; info.transitions = "transitions"; info.traces = "executions";
    info.assumptions = {"sequential consistency between synchronization operations; data races, which would break it, are detected by vector clocks in every explored execution",
                        "the state cache compares 64-bit hashes of happens-before graphs"};
    return pbv::run(argc, argv, "C15", info, [](pbv::Worker& w) {
        auto const deep = w.ctx.thorough();
        std::vector<Program> ps;
        // --- queue programs. variant bit 0: lvalue pushes; bit 1: producers register in the main thread before the threads start;
        //     bit 2: the consumers start before the producers
        for (int producers = 1; producers <= 2; ++producers) {
            for (int consumers = 1; consumers <= 2; ++consumers) {
                for (int items = 0; items <= 3; ++items) {
                    for (int capacity = 0; capacity <= 2; ++capacity) {   // 0: unbounded
                        if (capacity > items * producers) { continue; }
                        // preemption bounds [2 * (producers - 1) + consumers - 1][items]; -1: none, -2: not in this tier
                        static int const quick[4][4] = {{-1, -1, -1, -1}, {-1, -1, 2, 1}, {3, 3, 1, 1}, {2, 1, 0, -2}};
                        static int const full[4][4] = {{-1, -1, -1, -1}, {-1, -1, 4, 3}, {-1, -1, 3, 2}, {4, 2, 1, 0}};
                        auto const p = (deep ? full : quick)[2 * (producers - 1) + consumers - 1][items];
                        if (p < -1) { continue; }
                        auto const size = producers * items + producers + consumers;
                        if (p == 0 && capacity == 0) { continue; }
                        for (int variant = 0; variant < 4; ++variant) {
                            auto q = p;
                            if (variant > 1 && !deep && q < 0) { q = 2; }
                            ps.push_back({"queue", producers, items, consumers, capacity, variant, q, 0, 0});
                        }
                        if (size <= 7) { ps.push_back({"queue", producers, items, consumers, capacity, 2, size <= 5 ? 2 : 1, 1, 0}); }
                    }
                }
            }
        }
        // --- the queue is reopened after it was closed (a second producer registers later)
        for (int items = 1; items <= 2; ++items) { ps.push_back({"reopen", 1, items, 1, 0, 0, deep ? -1 : 3, 0, 0}); }
        for (int capacity = 0; capacity <= 6; ++capacity) {
            for (int items = 0; items <= (capacity ? capacity : 20); ++items) { ps.push_back({"fill", 1, items, 0, capacity, 0, -1, 0, 0}); }
        }
        // --- thread pools. variant 0: join; 1: join twice; 2: destructor only; 3: add, then let the workers run, add more
        for (int threads = 1; threads <= 3; ++threads) {
            for (int tasks = 0; tasks <= 4; ++tasks) {
                for (int variant = 0; variant < 4; ++variant) {
                    static int const quick[3][5] = {{-1, -1, -1, -1, -1}, {-1, -1, -1, 4, 3}, {3, 3, 2, 2, 2}};
                    static int const full[3][5] = {{-1, -1, -1, -1, -1}, {-1, -1, -1, -1, 5}, {-1, 4, 4, 3, 3}};
                    auto const p = (deep ? full : quick)[threads - 1][tasks];
                    auto const size = threads * 2 + tasks;
                    ps.push_back({"pool", threads, tasks, 0, 0, variant, p, 0, 0});
                    if (size <= 6) { ps.push_back({"pool", threads, tasks, 0, 0, variant, 2, 1, 0}); }
                }
            }
        }
        std::stable_sort(ps.begin(), ps.end(), [](Program const& a, Program const& b) {
            return a.producers * (a.items + 1) + 2 * a.consumers > b.producers * (b.items + 1) + 2 * b.consumers; });
        for (int single = 1; single <= 3; ++single) {
            for (int producers = 1; producers <= 4; ++producers) {
                for (int consumers = 1; consumers <= 4; ++consumers) {
                    for (int items : {0, 1, 2, 5, 17}) {
                        for (int capacity : {0, 1, 2, 3, 16}) {
                            for (int variant = 0; variant < 4; ++variant) { ps.push_back({"queue", producers, items, consumers, capacity, variant, -1, 0, single}); }
                        }
                    }
                }
            }
            for (int threads = 1; threads <= 8; ++threads) {
                for (int tasks = 0; tasks <= 40; tasks = tasks < 10 ? tasks + 1 : tasks + 10) {
                    for (int variant = 0; variant < 4; ++variant) { ps.push_back({"pool", threads, tasks, 0, 0, variant, -1, 0, single}); }
                }
            }
        }
        if (auto e = std::getenv("PBV_CONFIG")) {
            Program p; std::istringstream(e) >> p.kind >> p.producers >> p.items >> p.consumers >> p.capacity >> p.variant >> p.preemptions >> p.spurious; p.single = 0; ps = {p};
        }

        Log log;
        auto const reset = [&](int producers, int consumers) {
            sched::Quiet q;
            log = Log();
            log.pushed.resize(static_cast<size_t>(producers));
            log.popped.resize(static_cast<size_t>(consumers));
            log.remaining_producers = producers;
        };
        auto const outcome = [&](Program const& p) {
            pbv::u64 h = pbv::hash(pbv::str(p.kind, p.producers, p.items, p.consumers, p.capacity));
            for (auto const& v : log.popped) { h = pbv::mix(h, 99); for (auto x : v) { h = pbv::mix(h, static_cast<pbv::u64>(x)); } }
            for (auto x : log.ran) { h = pbv::mix(h, static_cast<pbv::u64>(x)); }
            w.distinct(h);
        };

        for (auto const& prog : ps) {
            with_program(w, prog, [&](Program const& p) {
                std::function<void()> body;
                std::function<std::string()> after;
                if (p.kind == "queue") {
                    body = [&] {
                        reset(p.producers, p.consumers);
                        std::unique_ptr<Queue<int>> queue;
                        if (p.capacity) { queue.reset(new Queue<int>(static_cast<size_t>(p.capacity))); } else { queue.reset(new Queue<int>()); }
                        auto& q = *queue;
                        auto const early = (p.variant & 2) != 0;
                        // keeps the queue from closing until every producer has registered
                        q.add_producer();
                        if (early) { for (int i = 0; i < p.producers; ++i) { q.add_producer(); } q.remove_producer(); }
                        std::vector<std::thread> threads;
                        for (int i = 0; i < p.producers; ++i) {
                            threads.emplace_back([&, i] {
                                std::unique_ptr<QueueGuard<int>> guard;
                                if (!early) { guard.reset(new QueueGuard<int>(q)); }
                                for (int k = 0; k < p.items; ++k) {
                                    auto const x = i * 100 + k;
                                    if (p.variant & 1) { int const& y = x; q.push(y); } else { q.push(int(x)); }
                                    sched::Quiet quiet;
                                    log.pushed[static_cast<size_t>(i)].push_back(x);
                                    ++log.pushes;
                                    expect(!p.capacity || log.pushes - log.pops <= p.capacity, "a push does not wait although the queue is full");
                                }
                                { sched::Quiet quiet; --log.remaining_producers; }
                                if (early) { q.remove_producer(); }
                            });
                        }
                        for (int i = 0; i < p.consumers; ++i) {
                            threads.emplace_back([&, i] {
                                for (;;) {
                                    { sched::Quiet quiet; ++log.pops; }
                                    auto maybe = q.pop();
                                    sched::Quiet quiet;
                                    if (!maybe) {
                                        expect(log.remaining_producers == 0, "a consumer gets the end of work while a producer is still there");
                                        break;
                                    }
                                    log.popped[static_cast<size_t>(i)].push_back(maybe.get());
                                }
                            });
                        }
                        if (!early) {
                            for (int i = 0; i < p.producers; ++i) { threads[static_cast<size_t>(i)].join(); }
                            q.remove_producer();
                            for (size_t i = static_cast<size_t>(p.producers); i < threads.size(); ++i) { threads[i].join(); }
                        } else {
                            for (auto& t : threads) { t.join(); }
                        }
                        expect(q.size() == 0, "items are left in the queue");
                        // a closed and empty queue gives the end of work again, without waiting
                        expect(!q.pop(), "an item appears in a closed and empty queue");
                    };
                    after = [&]() -> std::string {
                        std::map<int, int> seen;
                        for (auto const& v : log.popped) {
                            std::map<int, int> last;
                            for (auto x : v) {
                                ++seen[x];
                                auto const it = last.find(x / 100);
                                if (it != last.end() && it->second >= x) { return "a consumer gets the items of one producer out of order"; }
                                last[x / 100] = x;
                            }
                        }
                        for (int i = 0; i < p.producers; ++i) {
                            for (int k = 0; k < p.items; ++k) {
                                auto const n = seen[i * 100 + k];
                                if (n == 0) { return "an item was lost"; }
                                if (n > 1) { return "an item was received twice"; }
                            }
                        }
                        if (static_cast<int>(seen.size()) != p.producers * p.items) { return "an item was received which nobody pushed"; }
                        if (p.consumers == 1 && p.producers == 1) {
                            for (int k = 0; k < p.items; ++k) { if (log.popped[0][static_cast<size_t>(k)] != k) { return "items are not received in the order in which they were pushed"; } }
                        }
                        outcome(p);
                        return "";
                    };
                } else if (p.kind == "fill") {
                    // a queue which is not full never makes the producer wait: there is no consumer which could wake it
                    body = [&] {
                        reset(1, 1);
                        std::unique_ptr<Queue<int>> queue;
                        if (p.capacity) { queue.reset(new Queue<int>(static_cast<size_t>(p.capacity))); } else { queue.reset(new Queue<int>()); }
                        auto& q = *queue;
                        for (int round = 0; round < 2; ++round) {
                            q.add_producer();
                            for (int k = 0; k < p.items; ++k) { if (k % 2) { q.push(int(k)); } else { q.push(k); } }
                            expect(q.size() == static_cast<size_t>(p.items), "the queue does not hold what was pushed");
                            q.remove_producer();
                            for (int k = 0; k < p.items; ++k) {
                                auto maybe = q.pop();
                                expect(maybe, "an item of a closed queue was lost");
                                expect(maybe.get() == k, "items are not received in the order in which they were pushed");
                            }
                            expect(!q.pop(), "an item appears in a closed and empty queue");
                        }
                    };
                    after = [&]() -> std::string { outcome(p); return ""; };
                } else if (p.kind == "reopen") {
                    body = [&] {
                        reset(1, 2);
                        Queue<int> q;
                        for (int round = 0; round < 2; ++round) {
                            q.add_producer();
                            std::thread producer([&] { for (int k = 0; k < p.items; ++k) { q.push(round * 10 + k); } q.remove_producer(); });
                            std::thread consumer([&] {
                                for (;;) {
                                    auto maybe = q.pop();
                                    if (!maybe) { break; }
                                    sched::Quiet quiet;
                                    log.popped[static_cast<size_t>(round)].push_back(maybe.get());
                                }
                            });
                            producer.join(); consumer.join();
                        }
                    };
                    after = [&]() -> std::string {
                        for (int round = 0; round < 2; ++round) {
                            auto const& v = log.popped[static_cast<size_t>(round)];
                            if (static_cast<int>(v.size()) != p.items) { return "an item was lost or duplicated after the queue was reopened"; }
                            for (int k = 0; k < p.items; ++k) { if (v[static_cast<size_t>(k)] != round * 10 + k) { return "wrong item after the queue was reopened"; } }
                        }
                        outcome(p);
                        return "";
                    };
                } else {
                    body = [&] {
                        reset(0, 0);
                        auto count = std::make_shared<int>(0);
                        {
                            cpb::ThreadPool pool(p.producers);
                            for (int k = 0; k < p.items; ++k) {
                                if (p.variant == 3 && k == 1) { std::this_thread::yield(); }
                                pool.add([&, k] {
                                    { sched::Quiet quiet; expect(!log.joined, "a task runs after join"); }
                                    if (!p.single && p.items <= 2) { sched::event(&log); }
                                    sched::Quiet quiet;
                                    log.ran.push_back(k);
                                });
                            }
                            if (p.variant != 2) {
                                pool.join();
                                sched::Quiet quiet;
                                expect(static_cast<int>(log.ran.size()) == p.items, "join returns before all tasks ran (or one ran twice)");
                                log.joined = true;
                            }
                            if (p.variant == 1) { pool.join(); }
                        }
                        sched::Quiet quiet;
                        log.joined = true;
                    };
                    after = [&]() -> std::string {
                        auto sorted = log.ran;
                        std::sort(sorted.begin(), sorted.end());
                        if (static_cast<int>(sorted.size()) != p.items) { return "not every task ran exactly once"; }
                        for (int k = 0; k < p.items; ++k) { if (sorted[static_cast<size_t>(k)] != k) { return "not every task ran exactly once"; } }
                        if (p.producers == 1 && sorted != log.ran) { return "one thread ran the tasks out of order"; }
                        outcome(p);
                        return "";
                    };
                }
                run_schedules(w, p.preemptions, p.spurious, true, body, after, 0, p.single);
            }, log);
        }
    });
}
