// see sched.hpp -- this file is compiled without instrumentation
#include "sched.hpp"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <algorithm>
#include <chrono>
#include <deque>
#include <map>
#include <unordered_map>
#include <memory>

extern "C" {
extern char __libc_single_threaded;
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

// ---- context switch (x86-64 System V) ------------------------------------------------------------
extern "C" void pbv_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl pbv_switch
.type pbv_switch,@function
pbv_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size pbv_switch,.-pbv_switch
)");

namespace sched {
namespace {

constexpr int max_threads = 12;
constexpr size_t stack_size = 1 << 20;

using u64 = std::uint64_t;

// A local allocator type makes local template instances: those of the instrumented code must not be used here
template<class T> struct Alloc {
    using value_type = T;
    Alloc() = default;
    template<class U> Alloc(Alloc<U> const&) {}
    T* allocate(size_t n) { return static_cast<T*>(__libc_malloc(n * sizeof(T))); }
    void deallocate(T* p, size_t) { __libc_free(p); }
    template<class U> bool operator==(Alloc<U> const&) const { return true; }
    template<class U> bool operator!=(Alloc<U> const&) const { return false; }
};
template<class T> using vec = std::vector<T, Alloc<T>>;
template<class V> using map64 = std::unordered_map<u64, V, std::hash<u64>, std::equal_to<u64>, Alloc<std::pair<u64 const, V>>>;
u64 mix(u64 a, u64 b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31;
    return a;
}

struct VC {
    unsigned c[max_threads] = {};
    void join(VC const& o) { for (int i = 0; i < max_threads; ++i) { c[i] = std::max(c[i], o.c[i]); } }
};

enum class St { ready, mutex, cond, join, done };

struct Thread {
    int id = 0;
    void* sp = nullptr;
    char* stack = nullptr;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    St st = St::ready;
    void* waits_for = nullptr;      // mutex or condition variable address, or the joined thread
    void* reacquire = nullptr;      // mutex to lock again after a condition wait
    bool timed = false;             // may leave the wait at any time
    bool timed_out = false;
    bool yielding = false;
    bool detached = false;
    VC vc;
    u64 last = 0;                   // hash of its last event
    unsigned events = 0;
    u64 eh[2] = {0, 0};
};

struct Obj {
    int owner = -1;
    int depth = 0;
    vec<int> waiters;       // threads waiting on it as a condition variable, in order
    VC vc;
    u64 last = 0;
    u64 name = 0;
};

struct Choice { int chosen; int n; };

// ---- global exploration state --------------------------------------------------------------------
bool active = false;                // an execution is running
int cur = -1;                       // running fiber
void* host_sp = nullptr;
std::vector<std::unique_ptr<Thread>>* threads = nullptr;
std::map<void*, Obj>* objects = nullptr;
Options opt;
Stats st;
vec<int>* trail = nullptr;          // choices of this execution
vec<int>* prefix = nullptr;         // choices to replay
vec<int>* widths = nullptr;         // number of alternatives at each choice of this execution
map64<unsigned>* visited = nullptr;
u64 trace_hash = 0;
int used_preemptions = 0, used_spurious = 0;
size_t steps = 0;
std::string* failure = nullptr;
bool pruned = false, finished = false;
std::function<void()> const* the_body = nullptr;
Shared* shared = nullptr;
vec<char*> stacks;
int in_runtime = 0;                         // guards against instrumented callbacks from our own code

struct Guard { Guard() { ++in_runtime; } ~Guard() { --in_runtime; } };

Thread& T(int i) { return *(*threads)[static_cast<size_t>(i)]; }

// ---- shadow memory for the race detector -----------------------------------------------------------
struct Cell {
    std::uintptr_t addr = 0; unsigned gen = 0;
    short wt = -1; unsigned wc = 0; void* wpc = nullptr; void* rpc = nullptr;
    short rt = -1; unsigned rc = 0; bool multi = false; unsigned r[max_threads];
};
std::vector<Cell>* shadow = nullptr;
size_t shadow_mask = 0, shadow_used = 0;
unsigned generation = 1;

Cell& cell(std::uintptr_t a) {
    auto h = mix(a, 77) & shadow_mask;
    for (;;) {
        auto& c = (*shadow)[h];
        if (c.gen != generation) {
            c.gen = generation; c.addr = a; c.wt = c.rt = -1; c.multi = false; ++shadow_used;
            return c;
        }
        if (c.addr == a) { return c; }
        h = (h + 1) & shadow_mask;
    }
}
void grow_shadow() {
    auto old = std::move(*shadow);
    *shadow = std::vector<Cell>((shadow_mask + 1) * 2);
    shadow_mask = shadow_mask * 2 + 1;
    shadow_used = 0;
    for (auto& c : old) { if (c.gen == generation) { cell(c.addr) = c; } }
}

void to_host();

void set_failure(std::string const& what) {
    if (failure->empty()) { *failure = what; }
}

std::string where(void* pc) {
    Dl_info i;
    char b[300];
    if (dladdr(pc, &i) && i.dli_fname) {
        int status = 0;
        char* d = i.dli_sname ? abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &status) : nullptr;
        std::snprintf(b, sizeof b, "%.200s (binary offset 0x%zx)", d ? d : i.dli_sname ? i.dli_sname : "?",
                      static_cast<size_t>(static_cast<char*>(pc) - static_cast<char*>(i.dli_fbase)));
        return b;
    }
    return "?";
}

void access(std::uintptr_t a, bool write, void* pc) {
    ++st.accesses;
    auto& t = T(cur);
    if (shadow_used * 2 > shadow_mask) { grow_shadow(); }
    auto& c = cell(a);
    auto const clean_w = c.wt < 0 || c.wt == cur || t.vc.c[c.wt] >= c.wc;
    auto race = !clean_w;
    int other = c.wt; const char* kind = "write"; auto other_pc = c.wpc;
    if (!race && write) {
        if (c.multi) {
            for (int i = 0; i < max_threads; ++i) {
                if (i != cur && c.r[i] > t.vc.c[i]) { race = true; other = i; kind = "read"; other_pc = c.rpc; }
            }
        } else if (c.rt >= 0 && c.rt != cur && t.vc.c[c.rt] < c.rc) { race = true; other = c.rt; kind = "read"; other_pc = c.rpc; }
    }
    if (race) {
        char buf[700];
        std::snprintf(buf, sizeof buf, "data race: %s by thread %d in %s is not ordered with a %s by thread %d in %s",
                      write ? "write" : "read", cur, where(pc).c_str(), kind, other, where(other_pc).c_str());
        set_failure(buf);
        to_host();
    }
    (write ? c.wpc : c.rpc) = pc;
    if (write) {
        c.wt = static_cast<short>(cur); c.wc = t.vc.c[cur]; c.rt = -1; c.multi = false;
    } else if (c.multi) {
        c.r[cur] = t.vc.c[cur];
    } else if (c.rt < 0 || c.rt == cur || t.vc.c[c.rt] >= c.rc) {
        c.rt = static_cast<short>(cur); c.rc = t.vc.c[cur];
    } else {
        std::memset(c.r, 0, sizeof c.r);
        c.r[c.rt] = c.rc; c.r[cur] = t.vc.c[cur]; c.multi = true;
    }
}

// tracked per byte at the granularity of the access start: accesses of one object normally have one size.
// Different sizes at the same place are split to 4-byte units (1- and 2-byte ones keep their own address).
void access_range(void* p, size_t n, bool write, void* pc) {
    if (!active || cur < 0 || in_runtime) { return; }
    Guard g;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    if (n < 4) { for (size_t i = 0; i < n; ++i) { access(a + i, write, pc); } }
    else {
        auto const b = a & ~std::uintptr_t{3};
        for (auto x = b; x < a + n; x += 4) { access(x, write, pc); }
    }
}

void forget(void* p, size_t n) {
    if (!active || cur < 0 || in_runtime || !p) { return; }
    auto a = reinterpret_cast<std::uintptr_t>(p) & ~std::uintptr_t{3};
    auto const end = reinterpret_cast<std::uintptr_t>(p) + n;
    for (; a < end; ++a) {
        auto h = mix(a, 77) & shadow_mask;
        for (;;) {
            auto& c = (*shadow)[h];
            if (c.gen != generation) { break; }
            if (c.addr == a) { c.wt = c.rt = -1; c.multi = false; break; }
            h = (h + 1) & shadow_mask;
        }
    }
}

// ---- switching ---------------------------------------------------------------------------------
void resume(int i) {        // from the host or a fiber to fiber i
    auto const from = cur;
    auto* const g = reinterpret_cast<u64*>(__cxxabiv1::__cxa_get_globals());
    if (from == i) { return; }
    if (from >= 0) { std::memcpy(T(from).eh, g, 16); }
    cur = i;
    std::memcpy(g, T(i).eh, 16);
    pbv_switch(from >= 0 ? &T(from).sp : &host_sp, T(i).sp);
}
void to_host() {
    auto const from = cur;
    auto* const g = reinterpret_cast<u64*>(__cxxabiv1::__cxa_get_globals());
    cur = -1;
    std::memset(g, 0, 16);
    void* dummy;
    pbv_switch(from >= 0 ? &T(from).sp : &dummy, host_sp);
}

Obj& object(void* p) {
    auto& o = (*objects)[p];
    if (!o.name) {
        // named after the event which touches it first: the same in all equivalent executions
        o.name = mix(mix(static_cast<u64>(cur) + 1, T(cur).events + 1), 0xabcdef);
    }
    return o;
}

void record(Thread& t, Obj& o, int kind) {
    auto const h = mix(mix(mix(mix(t.last, static_cast<u64>(t.id) * 131 + static_cast<u64>(kind)), o.name), o.last), ++t.events);
    t.last = h;
    o.last = h;
    trace_hash += h;
    ++st.transitions;
}
void sync_acquire(Thread& t, Obj& o) { t.vc.join(o.vc); }
void sync_release(Thread& t, Obj& o) { o.vc.join(t.vc); ++t.vc.c[t.id]; }

int choose(int n) {
    if (n <= 1) { return 0; }
    auto const k = trail->size();
    int c = 0;
    if (k < prefix->size()) {
        c = (*prefix)[k];
        if (c >= n) {
            std::fprintf(stderr, "sched: replay divergence at choice %zu: %d of %d\n", k, c, n);
            std::_Exit(3);
        }
    } else if (opt.single == 2) { c = n - 1; }
    else if (opt.single == 3) { c = static_cast<int>(k % static_cast<size_t>(n)); }
    trail->push_back(c);
    widths->push_back(n);
    if (shared && trail->size() <= 4096) { shared->choices[trail->size() - 1] = c; shared->n = static_cast<int>(trail->size()); }
    return c;
}

bool enabled(Thread const& t) {
    switch (t.st) {
        case St::ready: return true;
        case St::mutex: return (*objects)[t.waits_for].owner < 0;
        case St::join: return T(static_cast<int>(reinterpret_cast<std::intptr_t>(t.waits_for))).st == St::done;
        default: return false;
    }
}

/// Pick who runs next. Called with the current fiber at a visible operation (or blocked, or done).
void schedule() {
    if (++steps > opt.max_steps) {
        set_failure("execution does not terminate (more than " + std::to_string(opt.max_steps) + " visible operations)");
        to_host(); return;
    }
    auto const me = cur;
    auto const me_enabled = enabled(T(me)) && !T(me).yielding;
    int cand[3 * max_threads]; int kind[3 * max_threads]; int n = 0;   // kind 0: run, 1: spurious wakeup, 2: timeout
    auto const may_preempt = opt.preemptions < 0 || used_preemptions < opt.preemptions;
    if (me_enabled) { cand[n] = me; kind[n++] = 0; }
    auto const size = static_cast<int>(threads->size());
    if (!me_enabled || may_preempt) {
        for (int i = 0; i < size; ++i) {
            if (i != me && enabled(T(i)) && !T(i).yielding) { cand[n] = i; kind[n++] = 0; }
        }
    }
    if (n == 0) {   // only yielding threads are left
        for (int i = 0; i < size; ++i) {
            if (enabled(T(i))) { cand[n] = i; kind[n++] = 0; }
        }
    }
    auto const stuck = (n == 0);
    if (used_spurious < opt.spurious && !stuck && (!me_enabled || may_preempt)) {
        for (int i = 0; i < size; ++i) { if (T(i).st == St::cond) { cand[n] = i; kind[n++] = 1; } }
    }
    for (int i = 0; i < size; ++i) {    // timed waits: may always time out
        if (T(i).st == St::cond && T(i).timed && (stuck || !me_enabled || may_preempt)) { cand[n] = i; kind[n++] = 2; }
    }
    if (n == 0) {
        bool all_done = true;
        std::string who;
        for (int i = 0; i < size; ++i) {
            if (T(i).st != St::done) {
                all_done = false;
                who += " thread " + std::to_string(i) + (T(i).st == St::cond ? " waits on a condition;"
                        : T(i).st == St::mutex ? " waits for a mutex;" : " waits to join;");
            }
        }
        if (all_done) { finished = true; } else { set_failure("deadlock:" + who); }
        to_host(); return;
    }
    if (n > 1) {
        // prune equivalent states (only at the frontier: the replayed prefix was checked before)
        if (trail->size() >= prefix->size() && opt.replay.empty() && opt.single == 0) {
            // states are only comparable with the same current thread (the preemption cost depends on it)
            u64 key = mix(trace_hash, static_cast<u64>(me_enabled ? me + 1 : 0));
            u64 pend = 0;   // the pending operations are determined by the events so far
            for (int i = 0; i < size; ++i) { pend = mix(pend, static_cast<u64>(T(i).yielding)); }
            key = mix(key, pend);
            auto const p = opt.preemptions < 0 ? 200u : static_cast<unsigned>(opt.preemptions - used_preemptions);
            auto const s = static_cast<unsigned>(opt.spurious - used_spurious);
            // dominance: one entry per remaining number of spurious wakeups, holding the preemption budget + 1
            bool seen = false;
            for (auto q = s; q <= static_cast<unsigned>(opt.spurious) && !seen; ++q) {
                auto const it = visited->find(mix(key, q));
                if (it != visited->end() && it->second >= p + 1) { seen = true; }
            }
            if (seen) { pruned = true; to_host(); return; }
            auto& v = (*visited)[mix(key, s)];
            if (v == 0) { ++st.states; }
            v = p + 1;
        }
    }
    auto const c = choose(n);
    auto const next = cand[c];
    if (kind[c] == 1) { ++used_spurious; }
    if (next != me && me_enabled) { ++used_preemptions; }
    for (int i = 0; i < size; ++i) { T(i).yielding = false; }
    if (kind[c] != 0) {
        auto& t = T(next);
        t.timed_out = kind[c] == 2;
        auto& w = (*objects)[t.waits_for].waiters;
        w.erase(std::find(w.begin(), w.end(), next));
        auto& o = (*objects)[t.waits_for];
        record(t, o, 40 + kind[c]);
        t.st = St::mutex; t.waits_for = t.reacquire;
        if (!enabled(t)) { schedule(); return; }   // it goes on to compete for the mutex
    }
    resume(next);
}

void fiber_main() {
    auto const me = cur;
    in_runtime = 0;
    {
        auto& t = T(me);
        if (t.fn) { t.ret = t.fn(t.arg); } else { (*the_body)(); }
    }
    Guard g;
    auto& t = T(me);
    auto& o = object(reinterpret_cast<void*>(static_cast<std::intptr_t>(me) + 1));
    record(t, o, 9);
    sync_release(t, o);
    t.st = St::done;
    schedule();
    std::abort();
}

int spawn(void* (*fn)(void*), void* arg) {
    auto const id = static_cast<int>(threads->size());
    if (id >= max_threads) { std::fprintf(stderr, "sched: too many threads\n"); std::_Exit(3); }
    threads->push_back(std::unique_ptr<Thread>(new Thread));
    auto& t = T(id);
    t.id = id; t.fn = fn; t.arg = arg;
    while (static_cast<int>(stacks.size()) <= id) {
        auto p = static_cast<char*>(mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        mprotect(p, 4096, PROT_NONE);
        stacks.push_back(p);
    }
    t.stack = stacks[static_cast<size_t>(id)];
    auto top = reinterpret_cast<u64*>(t.stack + stack_size);
    *--top = 0;                                     // keeps the stack aligned for a function entry
    *--top = reinterpret_cast<u64>(&fiber_main);    // return address of pbv_switch
    for (int i = 0; i < 6; ++i) { *--top = 0; }
    --top;
    unsigned mxcsr; unsigned short fcw;
    asm volatile("stmxcsr %0" : "=m"(mxcsr)); asm volatile("fnstcw %0" : "=m"(fcw));
    std::memcpy(top, &mxcsr, 4); std::memcpy(reinterpret_cast<char*>(top) + 4, &fcw, 2);
    t.sp = top;
    t.vc.c[id] = 1;
    return id;
}

bool in_fiber() { return active && cur >= 0 && !in_runtime; }

template<class F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

// ---- operations ----------------------------------------------------------------------------------
/// Take the mutex: blocks (in the scheduler) until it is free
void acquire(void* m) {
    auto const me = cur;
    T(me).st = St::mutex; T(me).waits_for = m;
    schedule();     // comes back only when the mutex is free
    auto& o = object(m);
    T(me).st = St::ready; T(me).timed = false;
    o.owner = me;
    record(T(me), o, 1);
    sync_acquire(T(me), o);
}
void lock(void* m) {
    Guard g;
    if (object(m).owner == cur) { set_failure("deadlock: a thread locks a mutex which it already holds"); to_host(); }
    acquire(m);
}
void unlock(void* m) {
    Guard g;
    auto& o = object(m);
    if (o.owner != cur) { set_failure("a thread unlocks a mutex which it does not hold"); to_host(); }
    o.owner = -1;
    record(T(cur), o, 2);
    sync_release(T(cur), o);
}
int wait(void* c, void* m, bool timed) {
    Guard g;
    auto const me = cur;
    {
        auto& om = object(m);
        if (om.owner != me) { set_failure("condition wait without holding the mutex"); to_host(); }
    }
    schedule();
    auto& t = T(me);
    auto& oc = object(c);
    record(t, oc, 3);
    oc.waiters.push_back(me);
    auto& om = object(m);
    om.owner = -1;
    record(t, om, 2);
    sync_release(t, om);
    t.st = St::cond; t.waits_for = c; t.reacquire = m; t.timed = timed; t.timed_out = false;
    schedule();
    // resumed: woken, and the mutex is free (see `wake` and `schedule`)
    auto& o = object(m);
    auto& t2 = T(me);
    t2.st = St::ready; t2.timed = false;
    o.owner = me;
    record(t2, o, 1);
    sync_acquire(t2, o);
    return t2.timed_out ? ETIMEDOUT : 0;
}
void wake(int i) { auto& w = T(i); w.st = St::mutex; w.waits_for = w.reacquire; w.timed = false; }
void notify(void* c, bool all) {
    Guard g;
    schedule();
    auto& o = object(c);
    record(T(cur), o, all ? 5 : 4);
    if (all) {
        for (auto i : o.waiters) { wake(i); }
        o.waiters.clear();
    } else if (!o.waiters.empty()) {
        auto const k = choose(static_cast<int>(o.waiters.size()));
        trace_hash += mix(static_cast<u64>(k) + 1000, T(cur).last);
        auto const i = o.waiters[static_cast<size_t>(k)];
        o.waiters.erase(o.waiters.begin() + k);
        wake(i);
    }
}
void atomic_op(void* a) {
    Guard g;
    if (opt.atomic_points) { schedule(); }
    auto& o = object(a);
    record(T(cur), o, 6);
    sync_acquire(T(cur), o);
    sync_release(T(cur), o);
}

} // anonymous namespace

void event(void const* p) {
    if (!in_fiber()) { return; }
    Guard g;
    schedule();
    auto& o = object(const_cast<void*>(p));
    record(T(cur), o, 7);
    // no happens-before edge: only an observation
}
Quiet::Quiet() { if (active && cur >= 0) { ++in_runtime; } }
Quiet::~Quiet() { if (active && cur >= 0) { --in_runtime; } }
void fail(std::string const& what) { if (active && cur >= 0) { Guard g; set_failure(what); to_host(); } }
int self() { return cur; }
void set_shared(Shared* s) { shared = s; }

Stats explore(Options const& options, std::function<void()> const& body, std::function<std::string()> const& after) {
    opt = options;
    st = {};
    __libc_single_threaded = 0;
    vec<int> tr, pre(options.replay.begin(), options.replay.end()), wid;
    map64<unsigned> vis;
    std::string fl;
    trail = &tr; prefix = &pre; widths = &wid; visited = &vis; failure = &fl;
    if (!shadow) { shadow = new std::vector<Cell>(1 << 16); shadow_mask = (1 << 16) - 1; }
    the_body = &body;
    auto const start = std::chrono::steady_clock::now();
    // The first execution is not counted: function-local statics are initialized in it, and only then is the
    // sequence of events a function of the choices.
    auto warm_up = options.replay.empty();
    for (;;) {
        std::vector<std::unique_ptr<Thread>> ths;
        std::map<void*, Obj> objs;
        threads = &ths; objects = &objs;
        tr.clear(); wid.clear();
        trace_hash = 0; used_preemptions = used_spurious = 0; steps = 0; pruned = finished = false;
        ++generation; shadow_used = 0;
        if (shared) { shared->n = 0; }
        in_runtime = 1;
        spawn(nullptr, nullptr);
        if (warm_up) { pre.clear(); }
        active = true;
        cur = -1;
        resume(0);
        active = false;
        in_runtime = 0;
        ++st.executions;
        st.max_steps = std::max(st.max_steps, static_cast<u64>(steps));
        auto const was_warm_up = warm_up;
        if (warm_up) {
            warm_up = false;
            if (fl.empty() && finished) {
                st = {}; vis.clear(); pre.assign(options.replay.begin(), options.replay.end());
                continue;
            }
        }
        if (fl.empty() && finished) {
            ++st.completed;
            fl = after();
        }
        if (!fl.empty()) {
            st.failed = true; st.what = fl; st.schedule.assign(tr.begin(), tr.end()); st.first = was_warm_up;
            return st;
        }
        if (pruned) { ++st.pruned; }
        if (!options.replay.empty() || options.single > 0) { return st; }
        // next prefix, depth first
        while (!tr.empty() && tr.back() + 1 >= wid.back()) { tr.pop_back(); wid.pop_back(); }
        if (tr.empty()) { return st; }
        pre = tr;
        ++pre.back();
        if (options.time_limit > 0 && (st.executions & 255) == 0) {
            std::chrono::duration<double> const d = std::chrono::steady_clock::now() - start;
            if (d.count() > options.time_limit) { st.complete = false; return st; }
        }
    }
}

} // namespace sched

// ---- pthread interface -----------------------------------------------------------------------------
using namespace sched;
#define REAL(name) static decltype(&name) r; if (!r) { r = real<decltype(&name)>(#name); }
extern "C" {

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!in_fiber()) { REAL(pthread_create); return r(h, a, fn, arg); }
    Guard g;
    int id;
    {
        id = spawn(fn, arg);
        auto& t = T(id); auto& me = T(cur);
        t.vc.join(me.vc); t.vc.c[id] = 1;
        t.last = mix(me.last, 0x7777);
        auto& o = object(reinterpret_cast<void*>(static_cast<std::intptr_t>(id) + 1));
        record(me, o, 8);
        t.last = mix(me.last, 0x7777);
        ++me.vc.c[cur];
        *h = static_cast<pthread_t>(id) + 1000;
    }
    schedule();
    return 0;
}
int pthread_join(pthread_t h, void** ret) {
    if (!in_fiber()) { REAL(pthread_join); return r(h, ret); }
    auto const id = static_cast<int>(h - 1000);
    Guard g;
    auto& t = T(cur);
    t.st = St::join; t.waits_for = reinterpret_cast<void*>(static_cast<std::intptr_t>(id));
    schedule();
    auto& t2 = T(cur);
    t2.st = St::ready;
    auto& o = object(reinterpret_cast<void*>(static_cast<std::intptr_t>(id) + 1));
    record(t2, o, 10);
    sync_acquire(t2, o);
    if (ret) { *ret = T(id).ret; }
    return 0;
}
int pthread_detach(pthread_t h) {
    if (!in_fiber()) { REAL(pthread_detach); return r(h); }
    T(static_cast<int>(h - 1000)).detached = true;
    return 0;
}
pthread_t pthread_self() {
    if (!in_fiber()) { REAL(pthread_self); return r(); }
    return static_cast<pthread_t>(cur) + 1000;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!in_fiber()) { REAL(pthread_mutex_lock); return r(m); }
    lock(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!in_fiber()) { REAL(pthread_mutex_trylock); return r(m); }
    Guard g;
    schedule();
    auto& o = object(m);
    record(T(cur), o, 11);
    if (o.owner >= 0) { return EBUSY; }
    o.owner = cur;
    sync_acquire(T(cur), o);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!in_fiber()) { REAL(pthread_mutex_unlock); return r(m); }
    unlock(m); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!in_fiber()) { REAL(pthread_cond_wait); return r(c, m); }
    return wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!in_fiber()) { REAL(pthread_cond_timedwait); return r(c, m, ts); }
    return wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (!in_fiber()) { REAL(pthread_cond_clockwait); return r(c, m, k, ts); }
    return wait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!in_fiber()) { REAL(pthread_cond_signal); return r(c); }
    notify(c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!in_fiber()) { REAL(pthread_cond_broadcast); return r(c); }
    notify(c, true); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!in_fiber()) { REAL(pthread_cond_destroy); return r(c); }
    Guard g;
    auto const it = objects->find(c);
    if (it != objects->end()) {
        if (!it->second.waiters.empty()) { set_failure("a condition variable is destroyed while a thread waits on it"); to_host(); }
        objects->erase(it);
    }
    return 0;
}
int sched_yield() {
    if (!in_fiber()) { REAL(sched_yield); return r(); }
    Guard g;
    T(cur).yielding = true;
    schedule();
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!in_fiber()) { REAL(nanosleep); return r(a, b); }
    return sched_yield();
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b) {
    if (!in_fiber()) { REAL(clock_nanosleep); return r(k, f, a, b); }
    return sched_yield();
}

// ---- function-local statics ------------------------------------------------------------------------
int __cxa_guard_acquire(long long* p) {
    auto const g = reinterpret_cast<char*>(p);
    if (!in_fiber()) { return *g == 0; }
    lock(g);
    if (*g) { unlock(g); return 0; }
    return 1;
}
void __cxa_guard_release(long long* g) { *reinterpret_cast<char*>(g) = 1; if (in_fiber()) { unlock(g); } }
void __cxa_guard_abort(long long* g) { if (in_fiber()) { unlock(g); } }

// ---- allocation: fresh memory has no history ---------------------------------------------------------
void* malloc(size_t n) { auto p = __libc_malloc(n); forget(p, n); return p; }
void free(void* p) { __libc_free(p); }
void* calloc(size_t a, size_t b) { auto p = __libc_calloc(a, b); forget(p, a * b); return p; }
void* realloc(void* p, size_t n) { auto q = __libc_realloc(p, n); forget(q, n); return q; }
void* memalign(size_t a, size_t n) { auto p = __libc_memalign(a, n); forget(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { auto p = __libc_memalign(a, n); forget(p, n); return p; }
int posix_memalign(void** r, size_t a, size_t n) { *r = __libc_memalign(a, n); forget(*r, n); return *r ? 0 : ENOMEM; }

// ---- instrumentation callbacks -----------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(n) \
    void __tsan_read##n(void* p) { access_range(p, n, false, __builtin_return_address(0)); } \
    void __tsan_write##n(void* p) { access_range(p, n, true, __builtin_return_address(0)); } \
    void __tsan_unaligned_read##n(void* p) { access_range(p, n, false, __builtin_return_address(0)); } \
    void __tsan_unaligned_write##n(void* p) { access_range(p, n, true, __builtin_return_address(0)); } \
    void __tsan_volatile_read##n(void* p) { access_range(p, n, false, __builtin_return_address(0)); } \
    void __tsan_volatile_write##n(void* p) { access_range(p, n, true, __builtin_return_address(0)); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, size_t n) { access_range(p, n, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { access_range(p, n, true, __builtin_return_address(0)); }
void __tsan_vptr_update(void** p, void*) { access_range(p, 8, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { access_range(p, 8, false, __builtin_return_address(0)); }

#define ATOMIC(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { if (in_fiber()) { atomic_op(const_cast<T*>(a)); } \
        return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, m, f); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int m, int f) { __tsan_atomic##n##_compare_exchange_strong(a, &c, v, m, f); return c; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
