// C13: parallel KPM -- every interleaving of the worker threads of the real stochastic and batch calculations
#include "kpm_ref.hpp"
#include "sched_job.hpp"
using namespace kref;

namespace {

enum Kind { dos, ldos };
struct Config { Kind kind; Type type; int vectors, threads, settings, preemptions, spurious; bool events; int single; };

struct Report { idx_t delta, total; int thread; };
struct Log { std::vector<Report> reports; ArrayXd dos; cpb::ArrayXXdCM ldos; bool returned = false; };

template<class S> VectorXcd draw(cpb::kpm::Starter const& starter) { return cpb::kpm::make_r0(starter, cpb::var::tag<cpb::VectorX<S>>(), 1).template cast<cd>(); }

/// One Hamiltonian of each kind, with its exact results
struct Problem {
    Type type; int n; MatrixXcd h; cpb::Hamiltonian ham; double min, max; Scale s; ArrayXd energy; MatrixXcd scaled_h;
    static constexpr int N = 6;

    explicit Problem(Type type, int settings) : type(type), n(3) {
        h = Graph{n, {{0, 1}, {1, 2}}, 1, ""}.matrix(is_complex(type));
        max = static_cast<float>(reach(h) + 0.25); min = -max;
        ham = sparse(h, type);
        auto core = make(settings, 1, nullptr);
        auto const f = core.scaling_factors(); s = {f.a, f.b};
        scaled_h = scaled(h, s);
        energy = ArrayXd(3); for (int i = 0; i < 3; ++i) { energy[i] = s.b + s.a * (-0.7 + 0.6 * i); }
    }
    cpb::kpm::Core make(int settings, int threads, cpb::kpm::DefaultCompute::ProgressCallback f) const {
        return cpb::kpm::Core(ham, cpb::kpm::DefaultCompute(threads, f), config(settings, kernel(jackson), min, max));
    }
    double broadening() const { return kref::broadening(jackson, N) * s.a; }
    std::vector<idx_t> indices(int count) const { std::vector<idx_t> r; for (int i = 0; i < count; ++i) { r.push_back((i * 2 + 1) % n); } return r; }
    /// The average over the fixed sequence of starting vectors
    ArrayXd expected_dos(int count) const {
        cpb::kpm::OptimizedHamiltonian plain(ham, cpb::kpm::MatrixFormat::CSR, false);
        plain.optimize_for({0, 0}, {min, max});
        auto const starter = cpb::kpm::random_starter(plain);
        VectorXcd mu = VectorXcd::Zero(N);
        for (int i = 0; i < count; ++i) {
            VectorXcd const v = type == f32 ? draw<float>(starter) : type == c32 ? draw<std::complex<float>>(starter) : type == f64 ? draw<double>(starter) : draw<cd>(starter);
            mu += (v.adjoint() * chebyshev(scaled_h, v, N)).transpose();
        }
        mu /= double(count);
        ArrayXd r(energy.size()); for (idx_t e = 0; e < r.size(); ++e) { r[e] = density(mu, jackson, s, energy[e]); } return r;
    }
    ArrayXd expected_ldos(idx_t i) const {
        VectorXcd v = VectorXcd::Zero(n); v[i] = 1;
        VectorXcd const mu = (v.adjoint() * chebyshev(scaled_h, v, N)).transpose();
        ArrayXd r(energy.size()); for (idx_t e = 0; e < r.size(); ++e) { r[e] = density(mu, jackson, s, energy[e]); } return r;
    }
};

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per (DOS or LDOS, element type, vectors, threads, optimization settings, preemption bound, spurious wakeups); every case explores all interleavings within its bound, or three fixed schedules of "
                "bigger configurations; distinct = sequences of progress reports by thread";
    info.states = "states"; info.transitions = "transitions"; info.traces = "executions";
    info.assumptions = {"sequential consistency between synchronization operations; data races, which would break it, are detected by vector clocks in every explored execution",
                        "the state cache compares 64-bit hashes of happens-before graphs", "the results are compared with those of a dense recursion within summation rounding"};
    return pbv::run(argc, argv, "C13", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        std::vector<Config> cs;
        for (int kind = 0; kind < 2; ++kind) { for (int type = 0; type < 4; ++type) {
            for (int threads = 1; threads <= 3; ++threads) { for (int vectors = 1; vectors <= (type == f32 ? 9 : 5); ++vectors) {
                int const batch = type == f32 ? 4 : type == c64 ? 1 : 2;
                int const jobs = vectors / batch + vectors % batch;        // about; sets the cost
                int p = jobs == 1 ? 3 : jobs == 2 ? 2 : jobs == 3 ? 1 : 0;
                if (threads == 3) { --p; } else if (threads == 1) { p += 2; }
                if (deep && (threads < 3 || jobs == 1 || jobs == 3)) { ++p; }
                if (p < 0 || (jobs > 4 && threads > 1) || (jobs > 3 && threads > 2)) { continue; }
                int const settings = (type * 3 + vectors + kind) % 8;
                cs.push_back({Kind(kind), Type(type), vectors, threads, settings, p, 0, false, 0});
                if (jobs <= 2) { cs.push_back({Kind(kind), Type(type), vectors, threads, (settings + 5) % 8, std::max(p - 1, 0), 0, true, 0}); cs.push_back({Kind(kind), Type(type), vectors, threads, (settings + 3) % 8, std::max(p - 1, 0), 1, false, 0}); }
            } }
        } }
        std::stable_sort(cs.begin(), cs.end(), [](Config const& a, Config const& b) { return a.threads * 10 + a.preemptions > b.threads * 10 + b.preemptions; });
        for (int kind = 0; kind < 2; ++kind) { for (int type = 0; type < 4; ++type) { for (int threads = 1; threads <= 8; threads = threads < 4 ? threads + 1 : threads + 4) {
            for (int vectors = 1; vectors <= (deep ? 40 : 19); vectors = vectors < 10 ? vectors + 1 : vectors + 3) { for (int single = 1; single <= 3; ++single) {
                if (!deep && (vectors + threads + type + single) % 3 != 0) { continue; }
                cs.push_back({Kind(kind), Type(type), vectors, threads, (vectors + threads) % 8, -1, 0, false, single});
            } }
        } } }
        for (auto const& c : cs) {
            auto const text = [&] { return str(c.kind == dos ? "DOS with " : "LDOS of ", c.vectors, " vectors, ", name(c.type), ", threads=", c.threads, ", ", settings_text(c.settings), " preemptions=", c.preemptions, " spurious=", c.spurious,
                                               c.events ? " observed" : "", c.single ? " fixed schedule " : "", c.single ? std::to_string(c.single) : ""); };
            if (!w.next(text)) { continue; }
            Problem const p(c.type, c.settings);
            Log log;
            auto core = p.make(c.settings, c.threads, [&](idx_t delta, idx_t total) {
                if (c.events) { sched::event(&log); }
                sched::Quiet q;
                if (log.returned) { sched::fail("a progress report after the calculation returned"); }
                log.reports.push_back({delta, total, sched::self()});
            });
            auto const idx = p.indices(c.vectors);
            auto const body = [&] {
                { sched::Quiet q; log = Log(); }
                if (c.kind == dos) { auto r = core.dos(p.energy, p.broadening(), c.vectors); sched::Quiet q; log.dos = r; log.returned = true; }
                else { auto r = core.ldos(idx, p.energy, p.broadening()); sched::Quiet q; log.ldos = r; log.returned = true; }
            };
            auto const want_dos = p.expected_dos(c.vectors);
            std::vector<ArrayXd> want_ldos; for (idx_t i = 0; i < p.n; ++i) { want_ldos.push_back(p.expected_ldos(i)); }
            double const eps = (is_double(c.type) ? 1e-7 : 2e-5) * Problem::N;
            auto const after = [&]() -> std::string {
                auto const differ = [&](ArrayXd const& got, ArrayXd const& want, double factor) {
                    if (got.size() != want.size()) { return true; }
                    for (idx_t i = 0; i < got.size(); ++i) { if (!(std::abs(got[i] - want[i]) <= eps * factor * magnitude(Problem::N, p.s, p.energy[i]))) { return true; } }
                    return false;
                };
                auto const show = [](ArrayXd const& a) { std::ostringstream o; for (idx_t i = 0; i < a.size(); ++i) { o << " " << a[i]; } return o.str(); };
                if (c.kind == dos) { if (differ(log.dos, want_dos, p.n)) { return "the density of states is" + show(log.dos) + " instead of" + show(want_dos); } }
                else {
                    if (log.ldos.cols() != c.vectors) { return str("results for ", log.ldos.cols(), " indices instead of ", c.vectors); }
                    for (int i = 0; i < c.vectors; ++i) {
                        ArrayXd const got = log.ldos.col(i); auto const& want = want_ldos[static_cast<size_t>(idx[static_cast<size_t>(i)])];
                        if (differ(got, want, 1)) { return str("the local density of states at ", idx[static_cast<size_t>(i)], " (number ", i, ") is") + show(got) + " instead of" + show(want); }
                    }
                }
                // progress: start, every vector once (the last batch may be bigger than what remains), finish
                auto const& r = log.reports;
                if (r.size() < 3) { return str("only ", r.size(), " progress reports"); }
                idx_t sum = 0, biggest = 0;
                for (size_t i = 0; i < r.size(); ++i) {
                    if (r[i].total != c.vectors) { return str("a progress report with a total of ", r[i].total); }
                    if (i > 0 && i + 1 < r.size()) { if (r[i].delta < 1) { return str("a progress report of ", r[i].delta); } sum += r[i].delta; biggest = std::max(biggest, r[i].delta); }
                }
                if (r[0].delta >= 0) { return std::string("the first progress report is not the start"); }
                if (r.back().delta != c.vectors) { return str("the last progress report is ", r.back().delta, " instead of the finish"); }
                if (sum < c.vectors || sum >= c.vectors + std::max<idx_t>(biggest, 1)) { return str("the progress reports add up to ", sum, " of ", c.vectors); }
                pbv::u64 h = pbv::hash(w.current);
                for (auto& x : r) { h = pbv::mix(h, static_cast<pbv::u64>(x.delta * 100 + x.thread + 1000)); }
                w.distinct(h);
                return "";
            };
            // (the matrix is made in the first execution and kept for the others)
            run_schedules(w, c.preemptions, c.spurious, true, body, after, 0, c.single);
        }
    });
}
