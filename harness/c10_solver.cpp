// C10: solver -- every sequence of solver operations over several models, and the formulas over a grid of spectra
#include "zoo.hpp"
#include "solver/Solver.hpp"
#include <Eigen/Eigenvalues>
using namespace gen;

namespace {

// ------------------------------------------------------------------------------------------------ an exact dense strategy
struct Record { int solved = 0, made = 0, changed = 0; bool fail_next = false; };
struct DenseConfig { Record* record = nullptr; };
template<class scalar_t> class Dense : public cpb::SolverStrategy {
    using real_t = cpb::num::get_real_t<scalar_t>;
    cpb::SparseMatrixRC<scalar_t> h; DenseConfig config;
    cpb::ArrayX<real_t> values; cpb::ColMajorArrayXX<scalar_t> vectors;
public:
    using Config = DenseConfig;
    explicit Dense(cpb::SparseMatrixRC<scalar_t> h, Config const& c = {}) : h(std::move(h)), config(c) { ++config.record->made; }
    bool change_hamiltonian(cpb::Hamiltonian const& n) override {
        if (!cpb::ham::is<scalar_t>(n)) { return false; }
        h = cpb::ham::get_shared_ptr<scalar_t>(n); ++config.record->changed; return true;   // the old results stay, as in a solver which reuses its memory
    }
    void solve() override {
        ++config.record->solved;
        if (config.record->fail_next) { config.record->fail_next = false; throw std::runtime_error("did not converge"); }
        cpb::ColMajorMatrixX<scalar_t> const full = h->toDense();
        Eigen::SelfAdjointEigenSolver<cpb::ColMajorMatrixX<scalar_t>> s(full);
        values = s.eigenvalues().array(); vectors = s.eigenvectors().array();
    }
    std::string report(bool shortform) const override { return shortform ? "short" : "long"; }
    cpb::RealArrayConstRef eigenvalues() const override { return cpb::arrayref(values); }
    cpb::ComplexArrayConstRef eigenvectors() const override { return cpb::arrayref(vectors); }
};

// ------------------------------------------------------------------------------------------------ a strategy with given results
struct Given { cpb::ArrayX<double> values; MatrixXcd vectors; int type; };   // type: 0 float, 1 double; +2 complex
class Fixed : public cpb::SolverStrategy {
    Given const& g;
    cpb::ArrayX<float> vf; cpb::ArrayX<double> vd;
    cpb::ColMajorArrayXX<float> ef; cpb::ColMajorArrayXX<double> ed; cpb::ColMajorArrayXX<std::complex<float>> cf; cpb::ColMajorArrayXX<cd> cdv;
public:
    explicit Fixed(Given const& g) : g(g) {
        vf = g.values.cast<float>(); vd = g.values;
        ef = g.vectors.real().cast<float>().array(); ed = g.vectors.real().array(); cf = g.vectors.cast<std::complex<float>>().array(); cdv = g.vectors.array();
    }
    bool change_hamiltonian(cpb::Hamiltonian const&) override { return true; }
    void solve() override {}
    std::string report(bool) const override { return ""; }
    cpb::RealArrayConstRef eigenvalues() const override { if (g.type & 1) { return cpb::arrayref(vd); } return cpb::arrayref(vf); }
    cpb::ComplexArrayConstRef eigenvectors() const override {
        switch (g.type) { case 0: return cpb::arrayref(ef); case 1: return cpb::arrayref(ed); case 2: return cpb::arrayref(cf); default: return cpb::arrayref(cdv); }
    }
};
struct FixedSolver : cpb::BaseSolver {
    FixedSolver(cpb::Model const& m, Given const& g) : BaseSolver(m, [&g](cpb::Hamiltonian const&) { return std::unique_ptr<cpb::SolverStrategy>(new Fixed(g)); }) {}
};

std::vector<double> numbers(cpb::num::ArrayConstRef r) {
    std::vector<double> v;
    for (idx_t i = 0; i < r.size(); ++i) { v.push_back(r.tag == cpb::num::Tag::f32 ? static_cast<float const*>(r.data)[i] : static_cast<double const*>(r.data)[i]); }
    return v;
}
MatrixXcd matrix(cpb::num::ArrayConstRef r) {
    MatrixXcd m(r.shape[0], r.shape[1]);
    for (idx_t i = 0; i < m.rows(); ++i) { for (idx_t j = 0; j < m.cols(); ++j) {
        auto const at = r.is_row_major ? i * m.cols() + j : j * m.rows() + i;
        using cpb::num::Tag;
        m(i, j) = r.tag == Tag::f32 ? cd(static_cast<float const*>(r.data)[at]) : r.tag == Tag::f64 ? cd(static_cast<double const*>(r.data)[at])
                : r.tag == Tag::cf32 ? cd(static_cast<std::complex<float> const*>(r.data)[at]) : static_cast<cd const*>(r.data)[at];
    } }
    return m;
}
long double gaussian(long double x, long double b) { return std::exp(-0.5L * (x / b) * (x / b)) / (b * std::sqrt(2 * 3.14159265358979323846264338327950288L)); }
bool near(double have, long double want, double scale, double tolerance) { return std::abs(have - static_cast<double>(want)) <= tolerance * scale; }
template<class V> std::string show(V const& v) { std::string t = "["; for (idx_t i = 0; i < static_cast<idx_t>(v.size()); ++i) { t += str(i ? " " : "", v[i]); } return t + "]"; }

// ------------------------------------------------------------------------------------------------ histories
struct Known { std::string name; cpb::Model model; bool broken; std::vector<double> values; MatrixXcd h; bool single; };

std::vector<Known> const& models() {
    static auto const r = [] {
        std::vector<Known> r;
        auto const add = [&](std::string n, cpb::Model m) {
            Known k{n, m, false, {}, {}, false};
            if (!thrown([&] { m.hamiltonian(); }).empty()) { k.broken = true; r.push_back(k); return; }
            k.h = ref::dense(m.hamiltonian()).m;
            Eigen::SelfAdjointEigenSolver<MatrixXcd> s(k.h);
            for (idx_t i = 0; i < s.eigenvalues().size(); ++i) { k.values.push_back(s.eigenvalues()[i]); }
            k.single = cpb::ham::is<float>(m.hamiltonian()) || cpb::ham::is<std::complex<float>>(m.hamiltonian());
            r.push_back(k);
        };
        auto const onsite = [](bool cplx, bool dbl, float scale) { return cpb::OnsiteModifier([scale](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p, cpb::string_view) {
            for (idx_t i = 0; i < e.size(); ++i) { auto const v = scale * p.x()[e.ndim == 1 ? i : 0] + 0.25f; using cpb::num::Tag; if (e.tag == Tag::f32) { static_cast<float*>(e.data)[i] += v; } else if (e.tag == Tag::f64) { static_cast<double*>(e.data)[i] += v; }
                else if (e.tag == Tag::cf32) { static_cast<std::complex<float>*>(e.data)[i] += v; } else { static_cast<cd*>(e.data)[i] += v; } } }, cplx, dbl); };
        auto const sq = make(square()); auto const dimer = make(dimer_chain());
        { cpb::Model m(sq, cpb::Primitive(2, 2)); add("a: real single", m); }
        { cpb::Model m(sq, cpb::Primitive(3, 1)); m.add(onsite(false, false, 1)); add("b: real single", m); }
        { cpb::Model m(sq, cpb::Primitive(2, 1)); m.add(onsite(false, true, 2)); add("c: real double", m); }
        { cpb::Model m(sq, cpb::Primitive(2, 2), cpb::TranslationalSymmetry(1, 1)); m.set_wave_vector({0.7f, -0.4f, 0}); add("d: complex single", m); }
        { cpb::Model m(sq, cpb::Primitive(2, 2)); m.add(onsite(true, true, 1)); add("e: complex double", m); }
        { cpb::Model m(sq, ball({50.3f, 0.4f, 0}, 0.05f).shape); add("f: impossible", m); }
        return r;
    }();
    return r;
}

enum { op_model0 = 0, op_clear = 6, op_solve, op_values, op_vectors, op_dos, op_ldos, op_report, op_fail, op_touch, n_ops };
std::string op_name(int o) {
    if (o < op_clear) { return "set " + models()[static_cast<size_t>(o)].name.substr(0, 1); }
    char const* const names[] = {"clear", "solve", "values", "vectors", "dos", "ldos", "report", "fail next", "change the original"};
    return names[o - op_clear];
}

void history(pbv::Worker& w, int first, std::vector<int> const& ops) {
    Record record;
    auto original = models()[static_cast<size_t>(first)].model;
    cpb::Solver<Dense> solver(original, DenseConfig{&record});
    int current = first; bool solved = false; int expected = 0;
    cpb::ArrayXf energies(3); energies << -1.5f, 0.25f, 2.f; float const broadening = 0.5f;
    auto const trace = [&](size_t i) { return "step " + str(i) + " " + op_name(ops[i]) + ": "; };
    for (size_t i = 0; i < ops.size(); ++i) {
        auto const op = ops[i]; auto const fails = record.fail_next && !solved;
        bool const asks = op == op_solve || op == op_values || op == op_vectors || op == op_dos || op == op_ldos;
        auto const tolerance = models()[static_cast<size_t>(current)].single ? 2e-5 : 1e-10;
        auto const& k = models()[static_cast<size_t>(current)];
        std::string problem; std::vector<double> values; MatrixXcd vectors; cpb::ArrayXd dos;
        problem = thrown([&] {
            if (op < op_clear) { original = models()[static_cast<size_t>(op)].model; solver.set_model(original); }
            switch (op) {
                case op_clear: solver.clear(); break;
                case op_solve: solver.solve(); break;
                case op_values: values = numbers(solver.eigenvalues()); break;
                case op_vectors: vectors = matrix(solver.eigenvectors()); break;
                case op_dos: dos = solver.calc_dos(energies, broadening); break;
                case op_ldos: dos = solver.calc_spatial_ldos(0.25f, broadening); break;
                case op_report: solver.report(true); break;
                case op_fail: record.fail_next = true; break;
                case op_touch: original.add(cpb::OnsiteModifier([](cpb::ComplexArrayRef, cpb::CartesianArrayConstRef, cpb::string_view) { throw std::runtime_error("not the model of the solver"); })); break;
                default: break;
            }
        });
        if (op < op_clear) {
            auto const& n = models()[static_cast<size_t>(op)];
            if (!w.check(problem.empty() == !n.broken, "set_model", [&] { return trace(i) + problem; })) { return; }
            if (!n.broken) { current = op; solved = false; }
            else {   // rejected: the solver has the model it had before (with or without its results)
                solved = solved && record.solved == expected;
            }
        } else if (asks) {
            if (!w.check(problem.empty() == !fails, "error", [&] { return trace(i) + (problem.empty() ? "the error of the solver is lost" : problem); })) { return; }
            if (!solved) { ++expected; solved = !fails; }
        } else {
            if (!w.check(problem.empty(), "error", [&] { return trace(i) + problem; })) { return; }
            if (op == op_clear) { solved = false; }
        }
        if (op < op_clear && models()[static_cast<size_t>(op)].broken) { solver.clear(); solved = false; }
        if (!w.check(record.solved == expected, "solved", [&] { return trace(i) + str("solved ", record.solved, " times, expected ", expected); })) { return; }
        auto const& c = models()[static_cast<size_t>(current)];
        ref::Dense h; auto const state = thrown([&] { h = ref::dense(solver.get_model().hamiltonian()); });
        if (!w.check(state.empty() && h.m.rows() == c.h.rows() && h.m == c.h && solver.system()->hamiltonian_size() == c.h.rows(), "model", [&] { return trace(i) + "the solver has another model than " + c.name + " " + state; })) { return; }
        if (!problem.empty()) { continue; }
        if (op == op_values) {
            bool ok = values.size() == k.values.size();
            for (size_t n = 0; ok && n < values.size(); ++n) { ok = std::abs(values[n] - k.values[n]) < tolerance; }
            if (!w.check(ok, "eigenvalues", [&] { return trace(i) + show(values) + " are not of " + k.name + " " + show(k.values); })) { return; }
        } else if (op == op_vectors) {
            bool ok = vectors.rows() == k.h.rows() && vectors.cols() == static_cast<idx_t>(k.values.size());
            for (size_t n = 0; ok && n < k.values.size(); ++n) { Eigen::VectorXcd v = vectors.col(static_cast<idx_t>(n)); ok = (k.h * v - k.values[n] * v).norm() < 5 * tolerance && std::abs(v.norm() - 1) < tolerance; }
            if (!w.check(ok, "eigenvectors", [&] { return trace(i) + "are not those of " + k.name; })) { return; }
        } else if (op == op_dos) {
            bool ok = dos.size() == energies.size();
            for (idx_t n = 0; ok && n < dos.size(); ++n) { long double want = 0; for (auto e : k.values) { want += gaussian(e - energies[n], broadening); } ok = near(dos[n], want, 1, 1e-4); }
            if (!w.check(ok, "dos", [&] { return trace(i) + show(dos) + " is not of " + k.name; })) { return; }
        } else if (op == op_ldos) {
            Eigen::SelfAdjointEigenSolver<MatrixXcd> s(k.h);
            bool ok = dos.size() == k.h.rows();
            for (idx_t r = 0; ok && r < dos.size(); ++r) { long double want = 0; for (size_t n = 0; n < k.values.size(); ++n) { want += std::norm(s.eigenvectors()(r, static_cast<idx_t>(n))) * gaussian(k.values[n] - 0.25f, broadening); } ok = near(dos[r], want, 1, 1e-4); }
            if (!w.check(ok, "spatial ldos", [&] { return trace(i) + show(dos) + " is not of " + k.name; })) { return; }
        }
    }
    w.count("histories"); w.distinct(pbv::hash(w.current));
}

void formulas(pbv::Worker& w, std::vector<double> const& values, int rows, int type) {
    Given g; g.type = type;
    auto const n = static_cast<idx_t>(values.size());
    g.values.resize(n); for (idx_t i = 0; i < n; ++i) { g.values[i] = values[static_cast<size_t>(i)]; }
    g.vectors.resize(rows, n);
    for (idx_t i = 0; i < rows; ++i) { for (idx_t j = 0; j < n; ++j) { g.vectors(i, j) = cd(0.125 * double(1 + i + 3 * j), (type & 2) ? 0.25 * double(i) - 0.5 * double(j) : 0); } }
    static auto const model = [] { cpb::Model m(make(square()), cpb::Primitive(2, 1)); m.eval(); return m; }();
    FixedSolver solver(model, g);
    for (float b : {0.01f, 0.3f, 1.f, 4.f}) {
        auto const tolerance = (type & 1) ? 1e-5 : 1e-4;
        double const scale = (1 + double(n)) / b * 20;
        for (auto& es : std::vector<std::vector<float>>{{}, {0.f}, {-2.f, 0.005f, 0.3f, 7.f}}) {
            cpb::ArrayXf energies(es.size()); for (size_t i = 0; i < es.size(); ++i) { energies[static_cast<idx_t>(i)] = es[i]; }
            cpb::ArrayXd dos; auto const problem = thrown([&] { dos = solver.calc_dos(energies, b); });
            bool ok = problem.empty() && dos.size() == energies.size(); std::vector<double> wants;
            for (size_t i = 0; i < es.size(); ++i) { long double want = 0; for (auto v : values) { want += gaussian(v - es[i], b); } wants.push_back(static_cast<double>(want)); if (ok) { ok = near(dos[static_cast<idx_t>(i)], want, scale, tolerance); } }
            if (!w.check(ok, "dos formula", [&] { return str("broadening ", b, ": ") + (problem.empty() ? show(dos) : problem) + " expected " + show(wants); })) { return; }
        }
        for (float e : {-1.f, 0.f, 0.31f}) {
            cpb::ArrayXd dos; auto const problem = thrown([&] { dos = solver.calc_spatial_ldos(e, b); });
            bool ok = problem.empty() && dos.size() == rows; std::vector<double> wants;
            for (idx_t r = 0; r < rows; ++r) { long double want = 0; for (idx_t i = 0; i < n; ++i) { want += std::norm(g.vectors(r, i)) * gaussian(values[static_cast<size_t>(i)] - e, b); } wants.push_back(static_cast<double>(want)); if (ok) { ok = near(dos[r], want, scale, tolerance); } }
            if (!w.check(ok, "spatial ldos formula", [&] { return str("energy ", e, ", broadening ", b, ": ") + (problem.empty() ? show(dos) : problem) + " expected " + show(wants); })) { return; }
        }
    }
    w.count("spectra"); w.distinct(pbv::hash(w.current));
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is one history of solver operations, or one spectrum with every energy and broadening of a grid; distinct: cases";
    info.states = "histories"; info.transitions = "checks"; info.traces = "histories";
    info.assumptions = {"the eigensolver itself (FEAST or a Python function, which are outside of this build) is replaced by an exact dense one, whose calls are counted, or by given results",
        "a solver whose new model is rejected may keep or discard its results"};
    return pbv::run(argc, argv, "C10", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        std::vector<int> ops;
        for (int first = 0; first < 5; ++first) {
            std::function<void(int)> go = [&](int length) {
                if (static_cast<int>(ops.size()) == length) {
                    if (w.next([&] { std::string t = "solver of " + models()[static_cast<size_t>(first)].name.substr(0, 1); for (auto o : ops) { t += "; " + op_name(o); } return t; })) { history(w, first, ops); w.progress(); }
                    return;
                }
                for (int o = 0; o < n_ops; ++o) {
                    if (static_cast<int>(ops.size()) == length - 1 && (o == op_fail || o == op_touch || o == op_clear)) { continue; }   // nothing is seen after these
                    ops.push_back(o); go(length); ops.pop_back();
                }
            };
            int const depth = (first == 0 ? 5 : 4) + deep;
            for (int length = 0; length <= depth; ++length) { go(length); }
        }
        std::vector<double> const grid = {-2, -1, 0, 0.3, 7};
        std::vector<double> values;
        std::function<void(size_t, size_t)> spectrum = [&](size_t n, size_t from) {
            for (int rows = 1; rows <= 3; ++rows) { for (int type = 0; type < 4; ++type) {
                if (w.next([&] { return "spectrum " + show(values) + str(", ", rows, " rows, type ", type); })) { formulas(w, values, rows, type); }
            } }
            if (n == 0) { return; }
            for (size_t i = from; i < grid.size(); ++i) { values.push_back(grid[i]); spectrum(n - 1, i); values.pop_back(); }
        };
        spectrum(deep ? 5 : 3, 0);
    });
}
