// Shared by all harnesses: worker processes, case accounting, violations, evidence files.
//
// A harness enumerates its whole bounded space in every worker process; each case is executed by exactly one of
// them. A crash, sanitizer report, failed assertion or a case which does not end is attributed to the case that was
// running. Cases are numbered in enumeration order, so a violation is replayed with `--only N`.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <chrono>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace pbv {

using u64 = std::uint64_t;

inline u64 mix(u64 a, u64 b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31;
    return a;
}
inline u64 hash(std::string const& s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return mix(h, s.size()); }

inline std::string json(std::string const& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c == '\n') { r += "\\n"; }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else { r += static_cast<char>(c); }
    }
    return r + "\"";
}

template<class... Args> std::string str(Args const&... args) {
    std::ostringstream o; o.precision(17);
    int dummy[] = {0, ((o << args), 0)...}; (void)dummy;
    return o.str();
}

struct Violation { u64 index; std::string key, text, what; };

struct Slot {   // shared with the parent
    volatile u64 count; volatile u64 index; volatile double since; char text[6000];
};

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Ctx {
    std::string property, tier = "quick", out, replays, known_file;
    long seed = 1;
    int jobs = 8;
    long long only = -1;
    bool verbose = false;
    double case_timeout = 180;
    bool thorough() const { return tier == "thorough"; }
};

class Worker {
public:
    Ctx const& ctx;
    Worker(Ctx const& c, u64* counter, Slot* slot) : ctx(c), counter(counter), slot(slot) {}

    /// Should this worker run the next case? `text` makes its description (only called when it does).
    template<class F> bool next(F text) {
        auto const i = total++;
        if (ctx.only >= 0) { if (static_cast<long long>(i) != ctx.only) { return false; } }
        else {
            // cases are handed out to the workers one by one, in enumeration order
            if (!has_claim) { claim = __atomic_fetch_add(counter, 1, __ATOMIC_RELAXED); has_claim = true; }
            if (i != claim) { return false; }
            has_claim = false;
        }
        if (stop) { return false; }
        index = i;
        current = text();
        ++counts["cases"];
        std::snprintf(slot->text, sizeof slot->text, "%s", current.c_str());
        slot->index = i; slot->since = now(); ++slot->count;
        if (ctx.only >= 0) { std::fprintf(stderr, "case %llu: %s\n", static_cast<unsigned long long>(i), current.c_str()); }
        auto const k = counts["cases"];
        if ((k & (k - 1)) == 0 && samples.size() < 12) { samples.push_back(current); }
        return true;
    }
    /// Keeps the watchdog quiet inside a long case
    void progress() { slot->since = now(); ++slot->count; }
    /// Describe the step which is about to run (for crashes)
    void note(std::string const& s) { std::snprintf(slot->text, sizeof slot->text, "%s | %s", current.c_str(), s.c_str()); }
    void count(char const* name, u64 k = 1) { counts[name] += k; }
    void maximum(char const* name, u64 k) { auto& m = maxima[name]; if (k > m) { m = k; } }
    /// Count as distinct and non-trivial by this hash
    void distinct(u64 h) { hashes.insert(h); }
    void violation(std::string const& key, std::string const& what) {
        violations.push_back({index, key, current, what});
        if (violations.size() >= 200) { stop = true; }
    }
    bool check(bool ok, char const* key, std::function<std::string()> const& what) {
        ++counts["checks"];
        if (!ok) { violation(key, what()); }
        return ok;
    }
    u64 total = 0;
    u64 index = 0;
    std::string current;
    bool stop = false;
    std::map<std::string, u64> counts, maxima;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    std::unordered_set<u64> hashes;
private:
    u64* counter;
    u64 claim = 0;
    bool has_claim = false;
    Slot* slot;
};

struct Info {
    std::string level = "model_checking";
    std::string rule;
    std::vector<std::string> assumptions;
    bool exhaustive = true;
    /// names of the counters reported as states / transitions / traces
    std::string states, transitions, traces;
};

namespace detail {
    inline void put(std::string& s, std::string const& x) { u64 n = x.size(); s.append(reinterpret_cast<char const*>(&n), 8); s += x; }
    inline void put(std::string& s, u64 x) { s.append(reinterpret_cast<char const*>(&x), 8); }
    struct Reader {
        std::string const& s; size_t i = 0; bool ok = true;
        u64 num() { u64 x = 0; if (i + 8 > s.size()) { ok = false; return 0; } std::memcpy(&x, s.data() + i, 8); i += 8; return x; }
        std::string text() { auto n = num(); if (!ok || i + n > s.size()) { ok = false; return ""; } auto r = s.substr(i, n); i += n; return r; }
    };
    inline std::string read_file(std::string const& p, size_t limit = 1 << 30) {
        std::string r; auto f = std::fopen(p.c_str(), "rb"); if (!f) { return r; }
        char b[65536]; size_t k; while (r.size() < limit && (k = std::fread(b, 1, sizeof b, f)) > 0) { r.append(b, k); }
        std::fclose(f); return r;
    }
}

inline int run(int argc, char** argv, std::string const& property, Info const& info, std::function<void(Worker&)> const& body) {
    Ctx ctx;
    ctx.property = property;
    for (int i = 1; i < argc; ++i) {
        auto const a = std::string(argv[i]);
        auto const v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") { ctx.tier = v(); }
        else if (a == "--seed") { ctx.seed = std::atol(v().c_str()); }
        else if (a == "--out") { ctx.out = v(); }
        else if (a == "--replays") { ctx.replays = v(); }
        else if (a == "--known") { ctx.known_file = v(); }
        else if (a == "--jobs") { ctx.jobs = std::atoi(v().c_str()); }
        else if (a == "--only") { ctx.only = std::atoll(v().c_str()); }
        else if (a == "-v") { ctx.verbose = true; }
    }
    auto const t0 = now();
    auto const n = ctx.only >= 0 ? 1 : ctx.jobs;
    auto slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * static_cast<size_t>(n), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto counter = static_cast<u64*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    struct Child { pid_t pid; int fd; std::string data, err; bool open = true; };
    std::vector<Child> kids;
    auto const tmp = str("/tmp/pbv.", getpid());
    for (int w = 0; w < n; ++w) {
        int fd[2];
        if (pipe(fd)) { return 2; }
        auto const errfile = str(tmp, ".", w);
        std::fflush(nullptr);
        auto const pid = fork();
        if (pid == 0) {
            close(fd[0]);
            if (ctx.only < 0) {
                auto const e = open(errfile.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
                if (e >= 0) { dup2(e, 2); dup2(e, 1); }
            }
            Worker worker(ctx, counter, slots + w);
            body(worker);
            std::string s;
            detail::put(s, worker.total);
            detail::put(s, worker.counts.size()); for (auto& p : worker.counts) { detail::put(s, p.first); detail::put(s, p.second); }
            detail::put(s, worker.maxima.size()); for (auto& p : worker.maxima) { detail::put(s, p.first); detail::put(s, p.second); }
            detail::put(s, worker.samples.size()); for (auto& p : worker.samples) { detail::put(s, p); }
            detail::put(s, worker.violations.size());
            for (auto& p : worker.violations) { detail::put(s, p.index); detail::put(s, p.key); detail::put(s, p.text); detail::put(s, p.what); }
            detail::put(s, worker.hashes.size()); for (auto h : worker.hashes) { detail::put(s, h); }
            detail::put(s, std::string("END"));
            size_t k = 0;
            while (k < s.size()) { auto const m = write(fd[1], s.data() + k, s.size() - k); if (m <= 0) { break; } k += static_cast<size_t>(m); }
            std::fflush(nullptr);
            _exit(0);
        }
        close(fd[1]);
        fcntl(fd[0], F_SETFL, O_NONBLOCK);
        kids.push_back({pid, fd[0], "", errfile});
    }
    std::vector<Violation> violations;
    std::vector<u64> last(static_cast<size_t>(n), 0);
    std::vector<double> since(static_cast<size_t>(n), now());
    std::map<std::string, u64> counts, maxima;
    std::vector<std::string> samples;
    std::unordered_set<u64> hashes;
    u64 total = 0;
    bool error = false;
    for (size_t open_count = kids.size(); open_count > 0;) {
        bool idle = true;
        for (size_t w = 0; w < kids.size(); ++w) {
            auto& k = kids[w];
            if (!k.open) { continue; }
            char b[65536];
            auto const m = read(k.fd, b, sizeof b);
            if (m > 0) { k.data.append(b, static_cast<size_t>(m)); idle = false; continue; }
            bool hung = false;
            if (m < 0) {
                if (slots[w].count != last[w]) { last[w] = slots[w].count; since[w] = now(); }
                if (now() - since[w] > ctx.case_timeout && slots[w].count > 0) { hung = true; kill(k.pid, SIGKILL); }
                else { continue; }
            }
            int status = 0;
            waitpid(k.pid, &status, 0);
            close(k.fd); k.open = false; --open_count; idle = false;
            detail::Reader r{k.data};
            auto const bad = hung || !WIFEXITED(status) || WEXITSTATUS(status) != 0 || k.data.size() < 3 || k.data.compare(k.data.size() - 3, 3, "END") != 0;
            auto const err = ctx.only < 0 ? detail::read_file(k.err) : std::string();
            unlink(k.err.c_str());
            if (bad) {
                auto what = hung ? std::string("the case does not end") :
                    WIFSIGNALED(status) ? str("terminated by signal ", WTERMSIG(status)) : str("terminated with exit status ", WEXITSTATUS(status));
                if (!hung && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) { error = true; }  // killed from outside (memory)
                if (WIFEXITED(status) && WEXITSTATUS(status) == 3) { error = true; }                // error of the harness itself
                what += "\n" + (err.size() > 5000 ? err.substr(0, 5000) : err);
                violations.push_back({slots[w].index, "crash", slots[w].text, what});
                continue;
            }
            total = std::max(total, r.num());
            for (auto c = r.num(); c > 0; --c) { auto s = r.text(); counts[s] += r.num(); }
            for (auto c = r.num(); c > 0; --c) { auto s = r.text(); auto v = r.num(); if (v > maxima[s]) { maxima[s] = v; } }
            for (auto c = r.num(); c > 0; --c) { auto s = r.text(); if (w < 4 && samples.size() < 16) { samples.push_back(s); } }
            for (auto c = r.num(); c > 0; --c) { Violation v; v.index = r.num(); v.key = r.text(); v.text = r.text(); v.what = r.text(); violations.push_back(v); }
            for (auto c = r.num(); c > 0; --c) { hashes.insert(r.num()); }
        }
        if (idle) { usleep(20000); }
    }
    // known findings: lines "finding: property=<id> key=<key> case=<exact case text>"
    auto const known = detail::read_file(ctx.known_file);
    std::vector<Violation const*> fresh;
    std::map<std::string, int> found;
    for (auto& v : violations) {
        auto const line = "finding: property=" + property + " key=" + v.key + " case=" + v.text + "\n";
        if (v.key != "crash" && known.find(line) != std::string::npos) { ++found[v.key + " case=" + v.text]; } else { fresh.push_back(&v); }
    }
    for (auto& p : found) { std::printf("KNOWN-FINDING: property=%s %s\n", property.c_str(), p.first.c_str()); }
    if (ctx.only >= 0) {
        for (auto v : fresh) { std::printf("violation [%s] %s\n%s\n", v->key.c_str(), v->text.c_str(), v->what.c_str()); }
    } else {
        std::map<std::string, int> per_key;
        int written = 0;
        for (auto v : fresh) {
            if (per_key[v->key]++ >= 2 || written >= 8) { continue; }
            auto const path = str(ctx.replays, "/", property, "-", ctx.tier, "-", v->index, ".txt");
            if (!ctx.replays.empty()) {
                mkdir(ctx.replays.c_str(), 0755);
                auto f = std::fopen(path.c_str(), "w");
                if (f) {
                    std::fprintf(f, "property: %s\ntier: %s\ncase number: %llu\ncase: %s\nkind: %s\n\n%s\n\nreplay: python3 tools/check.py %s --tier %s --only %llu\n",
                        property.c_str(), ctx.tier.c_str(), static_cast<unsigned long long>(v->index), v->text.c_str(), v->key.c_str(), v->what.c_str(),
                        property.c_str(), ctx.tier.c_str(), static_cast<unsigned long long>(v->index));
                    std::fclose(f);
                }
            }
            std::printf("[%s] case %llu: %.300s\n  %.600s\n", v->key.c_str(), static_cast<unsigned long long>(v->index), v->text.c_str(), v->what.c_str());
            if (!error) { std::printf("VIOLATION property=%s replay=%s\n", property.c_str(), path.c_str()); }
            ++written;
        }
    }
    auto const wall = now() - t0;
    if (!ctx.out.empty()) {
        auto f = std::fopen(ctx.out.c_str(), "w");
        if (!f) { return 2; }
        auto const get = [&](std::string const& k) -> u64 { if (k == "distinct") { return hashes.size(); } auto it = counts.find(k); return it == counts.end() ? 0 : it->second; };
        std::fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %ld,\n \"level\": \"%s\",\n \"coverage\": {\n",
            property.c_str(), ctx.tier.c_str(), ctx.seed, info.level.c_str());
        auto const P = [&](char const* k, u64 v) { std::fprintf(f, "  \"%s\": %llu,\n", k, static_cast<unsigned long long>(v)); };
        P("evaluations", get("cases"));
        P("distinct_nontrivial", hashes.size());
        std::fprintf(f, "  \"rule\": %s,\n", json(info.rule).c_str());
        if (info.level == "model_checking") {
            P("states", get(info.states)); P("transitions", get(info.transitions)); P("traces_validated_against_impl", get(info.traces));
        }
        auto const complete = info.exhaustive && get("incomplete") == 0 && violations.empty();
        std::fprintf(f, "  \"exhaustive\": %s,\n", complete ? "true" : "false");
        std::fprintf(f, "  \"counters\": {");
        bool first = true;
        for (auto& p : counts) { std::fprintf(f, "%s\n   %s: %llu", first ? "" : ",", json(p.first).c_str(), static_cast<unsigned long long>(p.second)); first = false; }
        for (auto& p : maxima) { std::fprintf(f, "%s\n   %s: %llu", first ? "" : ",", json("max " + p.first).c_str(), static_cast<unsigned long long>(p.second)); first = false; }
        std::fprintf(f, "\n  },\n  \"samples\": [");
        first = true;
        for (auto& s : samples) { std::fprintf(f, "%s\n   %s", first ? "" : ",", json(s.substr(0, 600)).c_str()); first = false; }
        std::fprintf(f, "\n  ]\n },\n \"assumptions\": [");
        first = true;
        for (auto& s : info.assumptions) { std::fprintf(f, "%s\n  %s", first ? "" : ",", json(s).c_str()); first = false; }
        std::fprintf(f, "\n ],\n \"wall_s\": %.3f,\n \"violations\": %zu\n}\n", wall, fresh.size());
        std::fclose(f);
    }
    std::printf("%s: %llu cases, %zu distinct, %zu new violations, %.1f s\n", property.c_str(),
                static_cast<unsigned long long>(counts["cases"]), hashes.size(), fresh.size(), wall);
    if (error) { std::printf("harness error\n"); return 2; }
    if (counts["cases"] == 0 && fresh.empty()) { std::printf("no case was run\n"); return 2; }
    return fresh.empty() ? 0 : 1;
}

} // namespace pbv

#if defined(__SANITIZE_ADDRESS__)
extern "C" __attribute__((weak)) char const* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size=65536:detect_stack_use_after_return=0";
}
#endif
