// C19: spectrum bounds, scaling and kernels -- families of Hamiltonians, bounds and moment counts, on the real code
#include "kpm_ref.hpp"
#include "compute/lanczos.hpp"
using namespace kref;

namespace {

struct Change { double scale, shift; bool laplacian; char const* name; };
std::vector<Change> const& changes() {
    static std::vector<Change> const r{{1, 0, false, ""}, {1, 4, false, ", shifted by 4"}, {1, -64, false, ", shifted by -64"}, {1, 1024, false, ", shifted by 1024"}, {1048576, 0, false, ", in big units"}, {1.0 / 1048576, 0, false, ", in small units"},
                                       {1, 0, true, ", laplacian"}, {-0.25, 0, true, ", negative laplacian"}, {64, 4096, true, ", shifted laplacian"}};
    return r;
}
MatrixXcd changed(Graph const& g, bool cplx, Change const& c) {
    MatrixXcd m = g.matrix(cplx);
    auto const n = m.rows();
    if (c.laplacian) {
        m = MatrixXcd::Zero(n, n);
        for (auto& e : g.edges) { m(e.first, e.second) = -1; m(e.second, e.first) = -1; m(e.first, e.first) += 1; m(e.second, e.second) += 1; }
    }
    return c.scale * m + c.shift * MatrixXcd::Identity(n, n);
}

/// The bounds of one Hamiltonian
bool check_bounds(pbv::Worker& w, MatrixXcd const& h, Type type, double precision, std::string const& what) {
    Eigen::SelfAdjointEigenSolver<MatrixXcd> solver(h, Eigen::EigenvaluesOnly);
    double const low = solver.eigenvalues().minCoeff(), high = solver.eigenvalues().maxCoeff();
    auto const ham = sparse(h, type);
    w.count("Hamiltonians");
    double min = 0, max = 0;
    cpb::kpm::Scale<> s;
    auto const problem = thrown([&] {
        cpb::kpm::Bounds b(ham, precision);
        min = b.min_energy(); max = b.max_energy(); s = b.scaling_factors();
        if (b.scaling_factors().a != s.a || b.min_energy() != min || b.report(false).empty()) { throw std::runtime_error("the bounds change"); }
        auto const l = b.linspaced(5);
        if (l.size() != 5 || std::abs(l[0] - min) > 1e-9 * std::abs(min) || std::abs(l[4] - max) > 1e-9 * std::abs(max) || std::abs(l[2] - 0.5 * (min + max)) > 1e-6 * (std::abs(min) + std::abs(max))) { throw std::runtime_error("wrong samples of the energy range"); }
    });
    if (!w.check(problem.empty(), "bounds", [&] { return what + ": " + problem; })) { return false; }
    double const half = 0.5 * (high - low), magnitude = std::max(std::abs(low), std::abs(high));
    double const rounding = (is_double(type) ? 1e-12 : 1e-5) * magnitude;
    // the precision is for the estimate of the energies; the tolerance of the scale must make up for it
    if (!w.check(std::isfinite(min) && std::isfinite(max) && min < max && low >= min - 0.009 * half - rounding && high <= max + 0.009 * half + rounding, "bounds", [&] { return str(what, ": the bounds ", min, " ", max, " do not enclose the spectrum from ", low, " to ", high); })) { return false; }
    double const over = (is_double(type) ? 0.009 : 0.05) * half + rounding;
    bool const narrow = half <= 2 * rounding;      // a single energy: the bounds have to have some width, but which one is not specified
    if (!narrow && !w.check(min >= low - over && max <= high + over, "bounds", [&] { return str(what, ": the bounds ", min, " ", max, " are much wider than the spectrum from ", low, " to ", high); })) { return false; }
    double const least = (low - s.b) / s.a, most = (high - s.b) / s.a;
    double const slack = narrow ? 0 : rounding / s.a;
    return w.check(least > -1 - slack && most < 1 + slack && s.a > 0, "scale", [&] { return str(what, ": the scaled spectrum reaches from ", least, " to ", most, " (a = ", s.a, ", b = ", s.b, ")"); });
}

template<class T> bool check_tridiagonal(pbv::Worker& w, std::vector<T> const& a, std::vector<T> const& b) {
    auto const n = static_cast<idx_t>(a.size());
    MatrixXd m = MatrixXd::Zero(n, n);
    cpb::ArrayX<T> alpha(n), beta(n);
    for (idx_t i = 0; i < n; ++i) { m(i, i) = alpha[i] = a[static_cast<size_t>(i)]; beta[i] = b[static_cast<size_t>(i)]; if (i + 1 < n) { m(i, i + 1) = m(i + 1, i) = beta[i]; } }
    Eigen::SelfAdjointEigenSolver<MatrixXd> solver(m, Eigen::EigenvaluesOnly);
    double const size = std::max(std::abs(solver.eigenvalues()[0]), std::abs(solver.eigenvalues()[n - 1]));
    cpb::ArrayX<T> got; 
    auto const problem = thrown([&] { got = cpb::compute::tridiagonal_eigenvalues(alpha, beta); });
    std::vector<double> v; for (idx_t i = 0; i < got.size(); ++i) { v.push_back(got[i]); } std::sort(v.begin(), v.end());
    bool ok = problem.empty() && static_cast<idx_t>(v.size()) == n;
    for (idx_t i = 0; ok && i < n; ++i) { ok = std::abs(v[static_cast<size_t>(i)] - solver.eigenvalues()[i]) <= (sizeof(T) == 4 ? 2e-6 : 1e-13) * static_cast<double>(n) * size; }
    w.count("tridiagonal matrices");
    return w.check(ok, "tridiagonal", [&] { std::ostringstream o; o << "diagonal"; for (auto x : a) { o << " " << x; } o << ", off-diagonal"; for (auto x : b) { o << " " << x; } o << ": got"; for (auto x : v) { o << " " << x; } o << ", expected " << solver.eigenvalues().transpose() << " " << problem; return o.str(); });
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is one graph (every labelled graph of up to 5, thorough 6, vertices, and families of up to 200, thorough 700) with all element types, shifts, units and precisions, or one block of moment counts, energy ranges or "
                "tridiagonal matrices; distinct = cases";
    info.states = "distinct"; info.transitions = "values"; info.traces = "Hamiltonians";
    info.assumptions = {"eigenvalues by Eigen's dense solver in double precision", "single precision Hamiltonians are known within 1e-5 of their norm"};
    return pbv::run(argc, argv, "C19", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        // ---- bounds
        std::vector<Graph> graphs;
        for (int n : deep ? std::vector<int>{6, 7, 8, 9, 10, 11, 13, 16, 17, 25, 31, 60, 100, 150, 200, 300, 400, 700} : std::vector<int>{5, 6, 8, 9, 13, 17, 30, 60, 100, 200}) { for (auto& g : families(n)) { graphs.push_back(g); } }
        for (int n = deep ? 6 : 5; n >= 1; --n) { for (auto g : all_graphs(n)) { for (int d = 0; d < (n == 6 ? 1 : 3); ++d) { g.diagonal = d; graphs.push_back(g); } } }
        std::reverse(graphs.begin(), graphs.end());
        std::stable_sort(graphs.begin(), graphs.end(), [](Graph const& a, Graph const& b) { return a.n / 20 > b.n / 20; });
        for (auto& g : graphs) {
            if (!w.next([&] { return g.text() + ": bounds"; })) { continue; }
            w.distinct(pbv::hash(w.current));
            bool ok = true;
            for (auto& c : changes()) { for (int type = 0; ok && type < 4; ++type) {
                if (!is_double(Type(type)) && std::abs(c.shift) > 10) { continue; }   // energies differ by less than single precision can tell reliably
                auto const h = changed(g, is_complex(Type(type)) && !c.laplacian, c);
                for (double precision : {0.002, 0.0001}) {
                    if (precision < 0.001 && !is_double(Type(type))) { continue; }
                    auto const what = str(name(Type(type)), c.name, ", precision ", precision, "%"); w.note(what);
                    ok = ok && check_bounds(w, h, Type(type), precision, what);
                }
                if (ok && g.n > 2 && !c.laplacian && c.scale == 1 && (is_double(Type(type)) || c.shift == 0)) {   // impurities: energies far away from all the others
                    for (double e : {100.0, -3000.0}) { if (!is_double(Type(type)) && e < 0) { continue; } auto m = h; m(g.n / 2, g.n / 2) += e; auto const what = str(name(Type(type)), c.name, ", impurity ", e); w.note(what); ok = ok && check_bounds(w, m, Type(type), 0.002, what); }
                }
            } }
        }
        // a single energy
        for (int n : {1, 2, 3, 7, 40}) { for (double e : {0.0, 1.0, -1.0, 0.1, 1e-6, 1234.5, -3e6}) {
            if (!w.next([&] { return str(n, " independent sites with the energy ", e); })) { continue; }
            w.distinct(pbv::hash(w.current));
            for (int type = 0; type < 4; ++type) { if (!check_bounds(w, e * MatrixXcd::Identity(n, n), Type(type), 0.002, name(Type(type)))) { break; } }
        } }
        // ---- tridiagonal matrices
        std::vector<double> const diagonal{0, 1, -1, 0.5, 1e-3, 2048}, off{0, 1, 0.5, 1e-3, 3, 1e-9};
        for (int n = 1; n <= (deep ? 6 : 5); ++n) { for (int a0 = 0; a0 < 6; ++a0) {
            if (!w.next([&] { return str("tridiagonal matrices of size ", n, " which start with ", diagonal[static_cast<size_t>(a0)]); })) { continue; }
            w.distinct(pbv::hash(w.current));
            long total = 1; for (int i = 0; i < 2 * n - 2; ++i) { total *= n == 6 ? 3 : n == 5 ? 4 : 6; }
            for (long code = 0; code < total; ++code) {
                long k = code; auto const pick = [&] { auto const m = n == 6 ? 3 : n == 5 ? 4 : 6; auto const r = static_cast<size_t>(k % m); k /= m; return r; };
                std::vector<double> a{diagonal[static_cast<size_t>(a0)]}, b;
                for (int i = 1; i < n; ++i) { a.push_back(diagonal[pick()]); b.push_back(off[pick()]); }
                b.push_back(0.75);   // one more than is used
                bool ok = check_tridiagonal<double>(w, a, b);
                if (ok) { ok = check_tridiagonal<float>(w, std::vector<float>(a.begin(), a.end()), std::vector<float>(b.begin(), b.end())); }
                if (!ok) { break; }
            }
        } }
        // ---- scale factors of given energy ranges
        for (int ix = -20; ix <= 20; ++ix) {
            if (!w.next([&] { return str("energy ranges from ", ix); })) { continue; }
            w.distinct(pbv::hash(w.current));
            for (double unit : {1.0, 1e-6, 1e6, 0.37}) { for (int k = 1; k <= 200; ++k) {
                double const min = ix * unit, max = (ix + 0.05 * k * k) * unit;
                cpb::kpm::Scale<> const s(min, max); cpb::kpm::Scale<float> const f{s};
                auto const range = [&](double a, double b) { return (min - b) / a > -1 && (max - b) / a < 1 && (min - b) / a < -0.98 && (max - b) / a > 0.98; };
                ++w.counts["values"];
                w.check(range(s.a, s.b) && range(static_cast<double>(f.a), static_cast<double>(f.b)), "scale", [&] { return str("the range ", min, " ", max, " is scaled with a = ", s.a, ", b = ", s.b); });
                ArrayXd e(3); e << min, max, 0.5 * (min + max); ArrayXd const x = s(e);
                w.check(std::abs(x[0] - (min - s.b) / s.a) < 1e-12 && std::abs(x[1] - (max - s.b) / s.a) < 1e-12 && std::abs(x[2]) < 1e-3, "scale", [&] { return str("scaled energies ", x[0], " ", x[1], " ", x[2]); });
                // given bounds are used as they are
                cpb::kpm::Bounds b(min, max);
                w.check(b.min_energy() == min && b.max_energy() == max && b.scaling_factors().a == s.a && b.scaling_factors().b == s.b, "given bounds", [&] { return str("the given bounds ", min, " ", max, " became ", b.min_energy(), " ", b.max_energy()); });
            } }
        }
        // ---- kernels
        std::vector<double> const lambdas{0.5, 1, 3, 4, 5, 9.75};
        for (int N = 1; N <= (deep ? 4000 : 1500); ++N) {
            if (!w.next([&] { return str("kernels with ", N, " moments"); })) { continue; }
            w.distinct(pbv::hash(w.current));
            for (int k = 0; k < 3; ++k) { for (double lambda : lambdas) {
                if (k != lorentz && lambda != 4) { continue; }
                auto const kern = kernel(KernelKind(k), lambda);
                auto const g = kern.damping_coefficients(N);
                auto const what = str(name(KernelKind(k)), k == lorentz ? str(" ", lambda) : "");
                ++w.counts["values"];
                if (!w.check(g.size() == N, "damping", [&] { return str(what, ": ", g.size(), " coefficients"); })) { continue; }
                double previous = 1;
                for (int n = 0; n < N; ++n) {
                    if (!w.check((n > 0 || std::abs(g[0] - 1) < 1e-9) && g[n] <= previous + 1e-6 / N && g[n] >= -1e-6 && g[n] <= 1 + 1e-9 && std::abs(g[n] - damping(KernelKind(k), n, N, lambda)) < 1e-6, "damping", [&] {
                        return str(what, ": coefficient ", n, " is ", g[n], " after ", previous, ", expected ", damping(KernelKind(k), n, N, lambda)); })) { break; }
                    previous = g[n];
                }
                // moment counts: around the broadening of exactly N moments
                double const width = k == lorentz ? lambda : pi;
                for (double off : {-0.5, -0.01, 0.0, 0.01, 0.5}) {
                    double const x = N + off; if (x <= 0.25) { continue; }
                    double const sigma = width / x;
                    auto const got = kern.required_num_moments(sigma);
                    // the smallest admissible number with a broadening (width / number) of sigma, or (if sigma is its broadening to rounding) the next one
                    auto const least = rounded(x - 1e-5), most = rounded(std::floor(x + 1e-5) + 1);
                    if (!w.check(got >= least && got <= most && (got - 2) % 4 == 0, "moments", [&] { return str(what, ": ", got, " moments for the broadening ", sigma, ", expected ", least, least == most ? "" : str(" or ", most)); })) { break; }
                    ++w.counts["values"];
                }
            } }
            if (N == 1) {
                w.check(!thrown([] { cpb::kpm::lorentz_kernel(0); }).empty() && !thrown([] { cpb::kpm::lorentz_kernel(-1); }).empty(), "lambda", [] { return std::string("a lambda which is not positive is accepted"); });
                for (idx_t n = -3; n <= 200; ++n) { auto const r = cpb::kpm::round_num_moments(n); w.check(r >= std::max<idx_t>(n, 2) && r < std::max<idx_t>(n, 2) + 4 && (r - 2) % 4 == 0, "rounding", [&] { return str(n, " is rounded to ", r); }); }
            }
        }
        // fewer moments for a bigger broadening
        for (int k = 0; k < 3; ++k) {
            if (!w.next([&] { return str(name(KernelKind(k)), ": broadenings in order"); })) { continue; }
            w.distinct(pbv::hash(w.current));
            auto const kern = kernel(KernelKind(k)); idx_t previous = std::numeric_limits<idx_t>::max();
            for (double sigma = 1e-7; sigma < 1e3; sigma *= 1.0005) { auto const n = kern.required_num_moments(sigma); ++w.counts["values"]; if (!w.check(n <= previous && n >= 2, "moments", [&] { return str(n, " moments for ", sigma, ", more than ", previous); })) { break; } previous = n; }
        }
    });
}
