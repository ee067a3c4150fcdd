// Reference for the kernel polynomial method: the plain Chebyshev recursion with dense matrices in double precision
#pragma once
#include "KPM.hpp"
#include "pbv.hpp"
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>

namespace kref {

using cpb::idx_t; using cpb::ArrayXd; using cpb::ArrayXcd; using cpb::ArrayXf; using cpb::MatrixXcd; using cpb::MatrixXd; using cpb::VectorXcd;
using cd = std::complex<double>;
using pbv::str;
double const pi = 3.14159265358979323846;

// ------------------------------------------------------------------------------------------------ Hamiltonians

enum Type { f32, c32, f64, c64 };
inline char const* name(Type t) { static char const* const n[] = {"float", "complex float", "double", "complex double"}; return n[t]; }
inline bool is_complex(Type t) { return t == c32 || t == c64; }
inline bool is_double(Type t) { return t >= f64; }

template<class S> S cast(cd v) { return cpb::num::force_cast<S>(v); }
template<class S> cpb::Hamiltonian sparse(MatrixXcd const& m) {
    auto p = std::make_shared<cpb::SparseMatrixX<S>>(m.rows(), m.cols());
    std::vector<Eigen::Triplet<S>> t;
    for (idx_t i = 0; i < m.rows(); ++i) { for (idx_t j = 0; j < m.cols(); ++j) { if (m(i, j) != 0.0) { t.emplace_back(static_cast<int>(i), static_cast<int>(j), cast<S>(m(i, j))); } } }
    p->setFromTriplets(t.begin(), t.end());
    p->makeCompressed();
    return cpb::Hamiltonian(std::shared_ptr<cpb::SparseMatrixX<S> const>(p));
}
inline cpb::Hamiltonian sparse(MatrixXcd const& m, Type t) {
    switch (t) { case f32: return sparse<float>(m); case c32: return sparse<std::complex<float>>(m); case f64: return sparse<double>(m); default: return sparse<cd>(m); }
}

/// Values which single precision can represent exactly, different for every edge
struct Graph {
    int n; std::vector<std::pair<int, int>> edges; int diagonal; std::string name;   // diagonal 0: none, 1: all different, 2: only on the last vertex
    MatrixXcd matrix(bool cplx) const {
        MatrixXcd m = MatrixXcd::Zero(n, n);
        int k = 0;
        for (auto& e : edges) {
            cd const v(1 + 0.125 * (k % 5), cplx ? 0.25 * (k % 7 + 1) : 0);
            m(e.first, e.second) = v; m(e.second, e.first) = std::conj(v); ++k;
        }
        for (int i = 0; i < n; ++i) { if (diagonal == 1 || (diagonal == 2 && i == n - 1)) { m(i, i) = (i % 2 ? -0.375 : 0.5) - 0.0625 * (i % 6); } }
        return m;
    }
    std::string text() const {
        std::ostringstream o; o << (name.empty() ? "graph" : name) << " of " << n;
        if (name.empty()) { for (auto& e : edges) { o << " " << e.first << "-" << e.second; } }
        if (diagonal) { o << (diagonal == 1 ? " with diagonal" : " with one diagonal element"); }
        return o.str();
    }
};
inline double reach(MatrixXcd const& m) {   // no eigenvalue is bigger
    double w = 0; for (idx_t i = 0; i < m.rows(); ++i) { w = std::max(w, m.row(i).cwiseAbs().sum()); } return w;
}
/// Every labelled graph with n vertices
inline std::vector<Graph> all_graphs(int n) {
    std::vector<std::pair<int, int>> pairs;
    for (int i = 0; i < n; ++i) { for (int j = i + 1; j < n; ++j) { pairs.emplace_back(i, j); } }
    std::vector<Graph> r;
    for (int mask = 0; mask < 1 << pairs.size(); ++mask) {
        Graph g{n, {}, 0, ""};
        for (size_t k = 0; k < pairs.size(); ++k) { if (mask >> k & 1) { g.edges.push_back(pairs[k]); } }
        r.push_back(g);
    }
    return r;
}
/// Bigger graphs with a given structure; the labels are scattered by a multiplication modulo n
inline std::vector<Graph> families(int n) {
    std::vector<Graph> r;
    int step = n > 4 ? n / 2 + 1 : 1;
    while (std::__gcd(step, n) != 1) { ++step; }
    auto const at = [&](int i, bool scatter) { return scatter ? i * step % n : i; };
    for (int scatter = 0; scatter < 2; ++scatter) {
        Graph path{n, {}, 1, "path"}, ring{n, {}, 0, "ring"}, star{n, {}, 2, "star"}, two{n, {}, 1, "two paths"}, ladder{n, {}, 0, "ladder"}, tree{n, {}, 1, "tree"}, dots{n, {}, 1, "pairs"};
        for (int i = 0; i + 1 < n; ++i) {
            path.edges.emplace_back(at(i, scatter), at(i + 1, scatter)); ring.edges.emplace_back(at(i, scatter), at(i + 1, scatter));
            if (i + 1 != n / 2) { two.edges.emplace_back(at(i, scatter), at(i + 1, scatter)); }
            star.edges.emplace_back(at(0, scatter), at(i + 1, scatter)); tree.edges.emplace_back(at(i / 2, scatter), at(i + 1, scatter));
            if (i % 2 == 0) { ladder.edges.emplace_back(at(i, scatter), at(i + 1, scatter)); if (i % 4 == 0) { dots.edges.emplace_back(at(i, scatter), at(i + 1, scatter)); } }
            if (i + 2 < n) { ladder.edges.emplace_back(at(i, scatter), at(i + 2, scatter)); }
        }
        if (n > 2) { ring.edges.emplace_back(at(n - 1, scatter), at(0, scatter)); }
        for (auto* g : {&path, &ring, &star, &two, &ladder, &tree, &dots}) { if (scatter) { g->name += " (scattered)"; } r.push_back(*g); }
        if (step == 1) { break; }
    }
    return r;
}

// ------------------------------------------------------------------------------------------------ settings

inline cpb::kpm::Config config(int settings, cpb::kpm::Kernel const& kernel, double min = 0, double max = 0) {
    cpb::kpm::Config c;
    c.min_energy = static_cast<float>(min); c.max_energy = static_cast<float>(max); c.kernel = kernel;
    c.matrix_format = settings & 1 ? cpb::kpm::MatrixFormat::ELL : cpb::kpm::MatrixFormat::CSR;
    c.algorithm.optimal_size = (settings & 2) != 0; c.algorithm.interleaved = (settings & 4) != 0;
    return c;
}
inline std::string settings_text(int s) { return str(s & 1 ? "ELL" : "CSR", s & 2 ? " optimal_size" : "", s & 4 ? " interleaved" : ""); }

// ------------------------------------------------------------------------------------------------ recursion

struct Scale { double a, b; };
/// T_n(H) v for n = 0..N-1 as the columns
inline MatrixXcd chebyshev(MatrixXcd const& scaled, VectorXcd const& v, idx_t num) {
    MatrixXcd r(v.size(), num);
    r.col(0) = v;
    if (num > 1) { r.col(1) = scaled * v; }
    for (idx_t n = 2; n < num; ++n) { r.col(n) = 2.0 * (scaled * r.col(n - 1)) - r.col(n - 2); }
    return r;
}
inline MatrixXcd scaled(MatrixXcd const& h, Scale s) { return (h - s.b * MatrixXcd::Identity(h.rows(), h.cols())) / s.a; }

enum KernelKind { jackson, lorentz, dirichlet };
inline char const* name(KernelKind k) { static char const* const n[] = {"jackson", "lorentz", "dirichlet"}; return n[k]; }
inline cpb::kpm::Kernel kernel(KernelKind k, double lambda = 4) {
    return k == jackson ? cpb::kpm::jackson_kernel() : k == lorentz ? cpb::kpm::lorentz_kernel(lambda) : cpb::kpm::dirichlet_kernel();
}
inline double damping(KernelKind k, int n, int N, double lambda = 4) {
    if (k == dirichlet) { return 1; }
    if (k == lorentz) { return std::sinh(lambda * (1 - double(n) / N)) / std::sinh(lambda); }
    return ((N - n + 1) * std::cos(pi * n / (N + 1)) + std::sin(pi * n / (N + 1)) / std::tan(pi / (N + 1))) / (N + 1);
}
/// 2 plus a multiple of 4, not less than n
inline int rounded(double n) { int r = 2; while (r < n) { r += 4; } return r; }
/// A broadening (scaled) which needs exactly this (rounded) number of moments
inline double broadening(KernelKind k, int N, double lambda = 4) { return (k == lorentz ? lambda : pi) / (N - 0.5); }

/// The Green's function and the spectral density from (undamped) moments
inline cd greens(VectorXcd const& mu, KernelKind k, Scale s, double energy) {
    double const e = (energy - s.b) / s.a; cd sum = 0; auto const N = static_cast<int>(mu.size());
    for (int n = 0; n < N; ++n) { sum += (n ? 1.0 : 0.5) * damping(k, n, N) * mu[n] * std::exp(cd(0, -n * std::acos(e))); }
    return cd(0, -2) / (s.a * std::sqrt(1 - e * e)) * sum;
}
inline double density(VectorXcd const& mu, KernelKind k, Scale s, double energy) {
    double const e = (energy - s.b) / s.a; double sum = 0; auto const N = static_cast<int>(mu.size());
    for (int n = 0; n < N; ++n) { sum += (n ? 1.0 : 0.5) * damping(k, n, N) * mu[n].real() * std::cos(n * std::acos(e)); }
    return 2 / (pi * s.a * std::sqrt(1 - e * e)) * sum;
}
/// How big can they be? (for the tolerance)
inline double magnitude(int N, Scale s, double energy) { double const e = (energy - s.b) / s.a; return 2 * N / (s.a * std::sqrt(1 - e * e)); }

/// [H, x] with the sign of the implementation: v(i, j) = H(i, j) * (x_i - x_j)
inline MatrixXcd velocity(MatrixXcd const& h, ArrayXf const& x) {
    MatrixXcd v = h; for (idx_t i = 0; i < h.rows(); ++i) { for (idx_t j = 0; j < h.cols(); ++j) { v(i, j) *= static_cast<double>(x[i]) - static_cast<double>(x[j]); } } return v;
}
struct Conductivity { cd value; double magnitude; };
/// Kubo-Bastin: 4/a^2 int f(E) / (1 - E^2)^2 sum mu_nm Gamma_nm(E) dE by the trapezoidal rule over the bounds
inline Conductivity kubo_bastin(MatrixXcd const& mu, KernelKind k, Scale s, double min, double max, int points, double potential, double temperature) {
    auto const N = static_cast<int>(mu.rows());
    cd integral = 0; double magnitude = 0;
    for (int p = 0; p < points; ++p) {
        double const energy = min + (max - min) * p / (points - 1), e = (energy - s.b) / s.a, theta = std::acos(e), root = std::sqrt(1 - e * e);
        cd sum = 0; double big = 0;
        for (int n = 0; n < N; ++n) { for (int m = 0; m < N; ++m) {
            cd const g = (e - cd(0, m * root)) * std::exp(cd(0, m * theta)) * std::cos(n * theta) + (e + cd(0, n * root)) * std::exp(cd(0, -n * theta)) * std::cos(m * theta);
            auto const d = (n ? 1.0 : 0.5) * (m ? 1.0 : 0.5) * damping(k, n, N) * damping(k, m, N);
            sum += d * mu(n, m) * g; big += std::abs(d * mu(n, m)) * (n + m + 2);
        } }
        double const x = (energy - potential) / (8.6173303e-5 * temperature), f = x > 700 ? 0 : 1 / (1 + std::exp(x));
        double const weight = (p == 0 || p == points - 1 ? 0.5 : 1.0) * f / ((1 - e * e) * (1 - e * e));
        integral += weight * sum; magnitude += weight * big;
    }
    // the step, as the implementation defines it (range / number of points)
    double const step = (max - min) / s.a / points, c = 4 / (s.a * s.a) * step;
    return {c * integral, c * magnitude + 1e-30};
}

template<class F> std::string thrown(F f) { try { f(); } catch (std::exception const& e) { return std::string("exception: ") + e.what(); } return ""; }

} // namespace kref
