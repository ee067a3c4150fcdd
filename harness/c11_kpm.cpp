// C11: the kernel polynomial method gives the plain Chebyshev expansion, whatever the optimization settings
#include "kpm_ref.hpp"
using namespace kref;

namespace {

struct Case { Graph g; Type type; int shifted, threads; };

/// All of the results of one Hamiltonian
struct Checker {
    pbv::Worker& w; Case const& c; MatrixXcd h; Scale s; double min, max; cpb::Hamiltonian ham; bool deep;
    ArrayXd energy; MatrixXcd scaled;
    double eps;

    Checker(pbv::Worker& w, Case const& c, bool deep) : w(w), c(c), h(c.g.matrix(is_complex(c.type))), deep(deep) {
        auto const r = reach(h) + 0.25;
        min = static_cast<float>(c.shifted ? -1.5 * r : -r); max = static_cast<float>(c.shifted ? 1.25 * r : r);
        ham = sparse(h, c.type);
        eps = is_double(c.type) ? 1e-7 : 2e-5;   // (pi is a single precision constant)
        auto core = make(0, dirichlet);
        auto const f = core.scaling_factors();
        s = {f.a, f.b};
        auto const tolerance = double(cpb::kpm::Scale<>::tolerance);
        w.check(std::abs(s.a - 0.5 * (max - min) * (1 + tolerance)) < 1e-5 * s.a && std::abs(s.b - 0.5 * (max + min)) < 1e-4 * s.a, "scale",
                [&] { return str("bounds ", min, " ", max, " give the scaling factors ", s.a, " ", s.b); });
        scaled = kref::scaled(h, s);
        energy = ArrayXd(4); for (int i = 0; i < 4; ++i) { energy[i] = s.b + s.a * (-0.77 + 0.49 * i); }
    }
    cpb::kpm::Core make(int settings, KernelKind k) const {
        return cpb::kpm::Core(ham, cpb::kpm::DefaultCompute(c.threads), config(settings, kernel(k), min, max));
    }
    VectorXcd unit(idx_t i) const { VectorXcd v = VectorXcd::Zero(h.rows()); v[i] = 1; return v; }
    /// The vector of moments <l|T_n|r> for every pair
    std::vector<MatrixXcd> tables(int N) const { std::vector<MatrixXcd> t; for (idx_t r = 0; r < h.rows(); ++r) { t.push_back(chebyshev(scaled, unit(r), N)); } return t; }   // t[r](l, n)

    template<class Got, class Want> bool close(Got const& got, Want const& want, int N, double factor, char const* what, std::string const& where) {
        ++w.counts["values"];
        double worst = 0;
        bool ok = got.size() == want.size();
        for (idx_t i = 0; ok && i < got.size(); ++i) { auto const d = std::abs(cd(got[i]) - cd(want[i])) / (magnitude(N, s, energy[i]) * factor); if (!(d <= worst)) { worst = d; } }
        ok = ok && worst <= eps * N;
        return w.check(ok, what, [&] {
            std::ostringstream o; o << where << ", " << N << " moments: got";
            for (idx_t i = 0; i < got.size(); ++i) { o << " " << cd(got[i]); }
            o << ", expected"; for (idx_t i = 0; i < want.size(); ++i) { o << " " << cd(want[i]); }
            o << ", relative difference " << worst; return o.str(); });
    }

    void greens(int settings, KernelKind k, int N, std::vector<MatrixXcd> const& t) {
        auto core = make(settings, k); auto const n = h.rows(); auto const b = broadening(k, N) * s.a;
        auto const want = [&](idx_t row, idx_t col) { VectorXcd const mu = t[col].row(row).transpose(); ArrayXcd r(energy.size()); for (idx_t e = 0; e < r.size(); ++e) { r[e] = kref::greens(mu, k, s, energy[e]); } return r; };
        auto const where = [&](char const* what) { return str(what, ", ", settings_text(settings), ", ", name(k)); };
        bool const all_pairs = n <= 8 || deep;
        for (idx_t i = 0; i < n; ++i) { for (idx_t j = 0; j < n; ++j) {
            if (!all_pairs && (i * 3 + j) % 5 != 0) { continue; }
            if (!close(core.greens(i, j, energy, b), want(i, j), N, 1, "greens", where("") + str(" G(", i, ",", j, ")"))) { return; }
        } }
        // several columns: all of them, in reverse, with repetitions, only the row itself, and every pair
        std::vector<std::vector<idx_t>> lists(2);
        for (idx_t i = 0; i < n; ++i) { lists[0].push_back(i); lists[1].push_back(n - 1 - i); lists[1].push_back(i / 2); }
        for (idx_t i = 0; i < n && n <= 4; ++i) { for (idx_t j = 0; j < n; ++j) { lists.push_back({i, j}); } }
        for (idx_t row = 0; row < n; ++row) {
            if (!all_pairs && row % 3 != 1) { continue; }
            for (auto& cols : lists) {
                auto const got = core.greens_vector(row, cols, energy, b);
                if (!w.check(got.size() == cols.size(), "greens count", [&] { return where("") + str(": ", got.size(), " results for ", cols.size(), " columns"); })) { return; }
                for (size_t i = 0; i < cols.size(); ++i) {
                    if (!close(got[i], want(row, cols[i]), N, 1, "greens vector", where("") + str(" G(", row, ",", cols[i], ") at ", i, " of ", cols.size()))) { return; }
                }
            }
        }
    }
    void ldos(int settings, KernelKind k, int N, std::vector<MatrixXcd> const& t) {
        auto core = make(settings, k); auto const n = h.rows(); auto const b = broadening(k, N) * s.a;
        std::vector<std::vector<idx_t>> lists;
        for (idx_t i = 0; i < n; ++i) { lists.push_back({i}); }
        if (n <= 4) {
            for (idx_t i = 0; i < n; ++i) { for (idx_t j = 0; j < n; ++j) { lists.push_back({i, j}); for (idx_t l = 0; l < n; ++l) { lists.push_back({i, j, l}); } } }
        } else { for (idx_t i = 0; i < n; ++i) { lists.push_back({i, (i * 5 + 2) % n}); lists.push_back({i, n - 1 - i, (i + 1) % n}); } }
        for (idx_t size : {4, 5, 7, 8, 9, 12, 17}) { std::vector<idx_t> l; for (idx_t i = 0; i < size; ++i) { l.push_back((i * 3 + size) % n); } lists.push_back(l); }
        for (auto& l : lists) {
            auto const got = core.ldos(l, energy, b);
            auto const where = [&] { std::ostringstream o; o << settings_text(settings) << ", " << name(k) << " ldos"; for (auto i : l) { o << " " << i; } return o.str(); };
            if (!w.check(got.cols() == static_cast<idx_t>(l.size()) && got.rows() == energy.size(), "ldos size", [&] { return where() + str(": ", got.rows(), "x", got.cols()); })) { return; }
            for (size_t i = 0; i < l.size(); ++i) {
                VectorXcd const mu = t[l[i]].row(l[i]).transpose(); ArrayXd want(energy.size()); for (idx_t e = 0; e < want.size(); ++e) { want[e] = density(mu, k, s, energy[e]); }
                if (!close(got.col(static_cast<idx_t>(i)).eval(), want, N, 1, "ldos", where() + str(" at ", i))) { return; }
            }
        }
    }
    /// The fixed sequence of random vectors (without any reordering)
    MatrixXcd random(int count) const {
        cpb::kpm::OptimizedHamiltonian plain(ham, cpb::kpm::MatrixFormat::CSR, false);
        plain.optimize_for({0, 0}, {min, max});
        auto starter = cpb::kpm::random_starter(plain);
        MatrixXcd r(h.rows(), count);
        for (int i = 0; i < count; ++i) {
            switch (c.type) {
                case f32: r.col(i) = cpb::kpm::make_r0(starter, cpb::var::tag<cpb::VectorX<float>>(), 1).cast<cd>(); break;
                case c32: r.col(i) = cpb::kpm::make_r0(starter, cpb::var::tag<cpb::VectorX<std::complex<float>>>(), 1).cast<cd>(); break;
                case f64: r.col(i) = cpb::kpm::make_r0(starter, cpb::var::tag<cpb::VectorX<double>>(), 1).cast<cd>(); break;
                default: r.col(i) = cpb::kpm::make_r0(starter, cpb::var::tag<cpb::VectorX<cd>>(), 1);
            }
        }
        return r;
    }
    void dos(int settings, KernelKind k, int N, MatrixXcd const& vectors) {
        auto core = make(settings, k); auto const b = broadening(k, N) * s.a; auto const n = double(h.rows());
        VectorXcd sum = VectorXcd::Zero(N); int count = 0;
        for (int i = 0; i < vectors.cols(); ++i) {
            VectorXcd const v = vectors.col(i);
            sum += (v.adjoint() * chebyshev(scaled, v, N)).transpose(); ++count;
            if (!deep && count > 5 && count != 8 && count != 9 && count != 16 && count != 17) { continue; }
            VectorXcd const mu = sum / double(count); ArrayXd want(energy.size()); for (idx_t e = 0; e < want.size(); ++e) { want[e] = density(mu, k, s, energy[e]); }
            if (!close(core.dos(energy, b, count), want, N, n, "dos", str(settings_text(settings), ", ", name(k), " dos of ", count, " vectors"))) { return; }
        }
    }
    void conductivity(int settings, KernelKind k, int N, MatrixXcd const& vectors) {
        auto core = make(settings, k); auto const n = h.rows(); auto const b = broadening(k, N) * s.a;
        ArrayXf x(n), y(n); for (idx_t i = 0; i < n; ++i) { x[i] = 0.5f * static_cast<float>(i * i % 7); y[i] = 0.25f * static_cast<float>((i * 3 + 1) % 5) - 1.0f; }
        MatrixXcd const vx = velocity(h, x), vy = velocity(h, y);
        double const temperature = 3000;
        for (int direction = 0; direction < 3; ++direction) {
            MatrixXcd const& l = direction < 2 ? vx : vy; MatrixXcd const& r = direction < 1 ? vx : vy;
            MatrixXcd sum = MatrixXcd::Zero(N, N);
            for (int i = 0; i < 2; ++i) {
                VectorXcd const v = vectors.col(i);
                MatrixXcd const left = chebyshev(scaled, l * v, N).transpose(), right = (r * chebyshev(scaled, v, N)).transpose();
                sum += left * right.adjoint();
                MatrixXcd const mu = sum / double(i + 1);
                auto const got = core.conductivity(direction < 2 ? x : y, direction < 1 ? x : y, energy, b, temperature, i + 1, 9);
                ++w.counts["values"];
                for (idx_t e = 0; e < energy.size(); ++e) {
                    auto const want = kubo_bastin(mu, k, s, min, max, 9, energy[e], temperature);
                    double const scale = want.magnitude + 1e-6 * (vx.norm() * vy.norm() + vx.squaredNorm());
                    if (!w.check(std::abs(got[e] - want.value) <= (is_double(c.type) ? 2e-6 : 2e-4) * scale, "conductivity", [&] {
                            return str(settings_text(settings), ", ", name(k), " direction ", direction, " ", i + 1, " vectors, ", N, " moments: got ", got[e], ", expected ", want.value, " scale ", scale); })) { return; }
                }
            }
        }
    }
    void moments(int settings, KernelKind k) {
        auto core = make(settings, k); auto const n = h.rows();
        bool const cplx = is_complex(c.type);
        VectorXcd alpha(n), beta(n); MatrixXcd op = MatrixXcd::Zero(n, n);
        for (idx_t i = 0; i < n; ++i) {
            alpha[i] = cd(0.5 + 0.25 * double(i % 4), cplx ? 0.125 * double(i % 3) : 0); beta[i] = cd(1 - 0.25 * double(i % 5), cplx ? -0.25 * double(i % 2) : 0);
            op(i, (i * 2 + 1) % n) += cd(0.5 + 0.125 * double(i % 3), cplx ? 0.5 : 0); op(i, i) += 0.25;
        }
        cpb::SparseMatrixXcd const sparse_op = op.sparseView();
        for (int N : {1, 2, 3, 6, 9, 14}) {
            for (int form = 0; form < 4; ++form) {
                VectorXcd const b = form & 1 ? beta : alpha; MatrixXcd const o = form & 2 ? op : MatrixXcd::Identity(n, n);
                auto const got = core.moments(N, alpha, form & 1 ? beta : VectorXcd(), form & 2 ? sparse_op : cpb::SparseMatrixXcd());
                VectorXcd const want = (b.adjoint() * o * chebyshev(scaled, alpha, N)).transpose();
                ++w.counts["values"];
                if (!w.check(got.size() == N, "moments size", [&] { return str(got.size(), " moments instead of ", N); })) { return; }
                for (int i = 0; i < N; ++i) {
                    auto const e = (i ? 1.0 : 0.5) * damping(k, i, rounded(N)) * want[i];
                    if (!w.check(std::abs(got[i] - e) <= eps * 10 * double(n * N), "moments", [&] {
                            return str(settings_text(settings), ", ", name(k), " form ", form, " moment ", i, " of ", N, ": got ", got[i], ", expected ", e); })) { return; }
                }
            }
        }
    }

    void run() {
        std::map<int, std::vector<MatrixXcd>> t;
        for (int N : {2, 6, 10, 14, 18}) { t[N] = tables(N); }
        auto const vectors = random(deep ? 20 : 17);
        for (idx_t j = 0; j < vectors.cols(); ++j) { for (idx_t i = 0; i < vectors.rows(); ++i) {
            if (!w.check(std::abs(std::abs(vectors(i, j)) - 1) < 1e-5, "random vectors", [&] { return str("element ", i, " of vector ", j, " is ", vectors(i, j)); })) { return; }
        } }
        for (int settings = 0; settings < 8; ++settings) {
            w.note(settings_text(settings)); w.progress();
            auto const before = w.violations.size();
            for (auto& p : t) {
                KernelKind const k = p.first == 6 ? jackson : p.first == 10 ? lorentz : dirichlet;
                greens(settings, k, p.first, p.second);
                ldos(settings, p.first == 10 ? jackson : p.first == 14 ? lorentz : dirichlet, p.first, p.second);
                if (p.first == 6 || p.first == 14) { dos(settings, p.first == 6 ? dirichlet : jackson, p.first, vectors); }
                if (p.first == 6 || (deep && p.first == 10)) { conductivity(settings, p.first == 6 ? dirichlet : lorentz, p.first, vectors); }
                if (w.violations.size() != before) { return; }
            }
            moments(settings, settings % 2 ? dirichlet : jackson);
            if (w.violations.size() != before) { return; }
        }
        w.distinct(pbv::hash(w.current));
    }
};

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "every labelled graph of up to 4 (thorough: 5) vertices, and families of graphs of 5 to 20 vertices, with and without diagonal elements, in four element types, with centred and shifted bounds; "
                "for each all 8 optimization settings x moment counts 2..18 x index pairs and lists x kernels; distinct = Hamiltonians";
    info.states = "distinct"; info.transitions = "values"; info.traces = "cases";
    info.assumptions = {"single precision results are compared within 2e-5 N of the biggest possible value"};
    return pbv::run(argc, argv, "C11", info, [](pbv::Worker& w) {
        auto const deep = w.ctx.thorough();
        std::vector<Graph> graphs;
        for (int n = 20; n >= 5; --n) {
            if (!deep && n != 5 && n != 8 && n != 9 && n != 13 && n != 17) { continue; }
            for (auto& g : families(n)) { graphs.push_back(g); }
        }
        for (int n = deep ? 5 : 4; n >= 1; --n) {
            for (auto g : all_graphs(n)) { for (int d = 0; d < 3; ++d) { if (n == 5 && d != static_cast<int>(g.edges.size() % 3)) { continue; } g.diagonal = d; graphs.push_back(g); } }
        }
        int k = 0;
        for (auto& g : graphs) {
            for (int type = 0; type < 4; ++type) {
                for (int shifted = 0; shifted < 2; ++shifted) {
                    ++k;
                    if (!deep && g.n >= 4 && (k % 4 + k / 8) % 4 != 0) { continue; }
#ifdef __SANITIZE_ADDRESS__
                    if (!deep && (k % 7 + k / 7) % 7 != 0) { continue; }    // (slower, and the primitives have their own check)
#endif
                        // a quarter of the combinations of type and shift for every bigger graph
                    Case c{g, static_cast<Type>(type), shifted, k % 5 == 0 ? 3 : 1};
                    if (!w.next([&] { return str(g.text(), ", ", name(c.type), shifted ? ", shifted bounds" : "", ", ", c.threads, " threads"); })) { continue; }
                    Checker(w, c, deep).run();
                }
            }
        }
    });
}
