// C12: KPM results do not depend on what was computed before -- every sequence of operations on one object, up to a length
#include "kpm_ref.hpp"
#include "zoo.hpp"
using namespace gen;
using kref::Type; using kref::Graph;

namespace {

using cpb::ArrayXd; using cpb::ArrayXcd;
using Values = std::vector<cd>;
struct Result { Values values; std::string problem; };
void put(Values& v, ArrayXd const& a) { for (idx_t i = 0; i < a.size(); ++i) { v.push_back(a[i]); } }
void put(Values& v, ArrayXcd const& a) { for (idx_t i = 0; i < a.size(); ++i) { v.push_back(a[i]); } }
void put(Values& v, cpb::ArrayXXdCM const& a) { v.push_back(double(a.cols())); for (idx_t j = 0; j < a.cols(); ++j) { for (idx_t i = 0; i < a.rows(); ++i) { v.push_back(a(i, j)); } } }
template<class F> Result result(F f) { Result r; try { f(r.values); } catch (std::exception const& e) { r.problem = e.what(); r.values.clear(); } return r; }

bool same(Result const& a, Result const& b, double tolerance) {
    if (a.problem != b.problem || a.values.size() != b.values.size()) { return false; }
    double scale = 1e-3; for (auto v : b.values) { if (std::isfinite(std::abs(v))) { scale = std::max(scale, std::abs(v)); } }
    for (size_t i = 0; i < a.values.size(); ++i) {
        auto const x = a.values[i], y = b.values[i];
        if (std::isnan(x.real()) && std::isnan(y.real())) { continue; }
        if (!(x == y || std::abs(x - y) <= tolerance * scale)) { return false; }
    }
    return true;
}
std::string show(Result const& r) {
    if (!r.problem.empty()) { return "the error '" + r.problem + "'"; }
    std::ostringstream o; for (size_t i = 0; i < r.values.size() && i < 8; ++i) { o << " " << r.values[i]; } if (r.values.size() > 8) { o << " ..."; } return o.str();
}
ArrayXd energies() { ArrayXd e(3); e << -0.9, 0.05, 1.1; return e; }

// ------------------------------------------------------------------------------------------------ the low-level interface: Hamiltonians and indices
std::vector<cpb::Hamiltonian> const& hamiltonians() {
    static std::vector<cpb::Hamiltonian> const r = [] {
        Graph const path{3, {{0, 1}, {1, 2}}, 1, ""}, ring{5, {{0, 2}, {2, 4}, {4, 1}, {1, 3}, {3, 0}}, 0, ""}, split{4, {{0, 3}, {1, 2}}, 2, ""};
        auto const m = path.matrix(false);
        return std::vector<cpb::Hamiltonian>{kref::sparse(m, kref::f32), kref::sparse(ring.matrix(true), kref::c32), kref::sparse(kref::MatrixXcd(m * 0.5 + 0.75 * kref::MatrixXcd::Identity(3, 3)), kref::f32), kref::sparse(split.matrix(true), kref::c64)};
    }();
    return r;
}
enum CoreOp { set0, set1, set2, set3, ldos0, ldos0_fine, ldos2, ldos01, ldos10, ldos02, greens00, greens01, greens10, vector0, vector10, vector2, dos2, dos5, conductivity, moments1, moments2, scale_op, report_op, core_ops };
char const* const core_names[] = {"set H0", "set H1", "set H2", "set H3", "ldos 0", "ldos 0 (fine)", "ldos 2", "ldos 0 1", "ldos 1 0", "ldos 0 2", "greens 0 0", "greens 0 1", "greens 1 0", "greens 0 {1 2}", "greens 0 {1 0}", "greens 2 {2 0 2}", "dos of 2", "dos of 5",
                                  "conductivity", "moments", "moments with operator", "scaling factors", "report"};
Result run_core(cpb::kpm::Core& core, int op, idx_t n) {
    auto const e = energies();
    return result([&](Values& v) {
        switch (op) {
            case set0: case set1: case set2: case set3: core.set_hamiltonian(hamiltonians()[static_cast<size_t>(op)]); break;
            case ldos0: put(v, core.ldos({0}, e, 0.9)); break;
            case ldos0_fine: put(v, core.ldos({0}, e, 0.4)); break;
            case ldos2: put(v, core.ldos({2}, e, 0.9)); break;
            case ldos01: put(v, core.ldos({0, 1}, e, 0.9)); break;
            case ldos10: put(v, core.ldos({1, 0}, e, 0.9)); break;
            case ldos02: put(v, core.ldos({0, 2}, e, 0.9)); break;
            case greens00: put(v, core.greens(0, 0, e, 0.9)); break;
            case greens01: put(v, core.greens(0, 1, e, 0.9)); break;
            case greens10: put(v, core.greens(1, 0, e, 0.9)); break;
            case vector0: for (auto& g : core.greens_vector(0, {1, 2}, e, 0.9)) { put(v, g); } break;
            case vector10: for (auto& g : core.greens_vector(0, {1, 0}, e, 0.9)) { put(v, g); } break;
            case vector2: for (auto& g : core.greens_vector(2, {2, 0, 2}, e, 0.9)) { put(v, g); } break;
            case dos2: put(v, core.dos(e, 0.9, 2)); break;
            case dos5: put(v, core.dos(e, 0.9, 5)); break;
            case conductivity: { cpb::ArrayXf x(n), y(n); for (idx_t i = 0; i < n; ++i) { x[i] = static_cast<float>(i * i % 3); y[i] = 0.5f * static_cast<float>(i); } put(v, core.conductivity(x, y, e, 1.5, 5000, 2, 5)); break; }
            case moments1: case moments2: {
                cpb::VectorXcd a(n), b(n); for (idx_t i = 0; i < n; ++i) { a[i] = 1.0 - 0.25 * double(i); b[i] = 0.5 + double(i % 2); }
                cpb::SparseMatrixXcd op_matrix(n, n); for (idx_t i = 0; i < n; ++i) { op_matrix.insert(i, (i + 1) % n) = 0.5 + 0.25 * double(i); } op_matrix.makeCompressed();
                put(v, op == moments1 ? core.moments(7, a, {}, {}) : core.moments(9, a, b, op_matrix)); break;
            }
            case scale_op: { auto const s = core.scaling_factors(); v.push_back(s.a); v.push_back(s.b); break; }
            case report_op: if (core.report(false).empty() || core.report(true).empty()) { throw std::runtime_error("empty report"); } break;
        }
    });
}
/// The same from a new object; several indices at once are asked for one by one
Result fresh_core(cpb::kpm::Config const& c, int h, int op) {
    auto const& ham = hamiltonians()[static_cast<size_t>(h)];
    auto const separate = [&](int o) { cpb::kpm::Core core(ham, cpb::kpm::DefaultCompute(1), c); return run_core(core, o, ham.rows()); };
    if (op <= set3) { return {}; }
    std::map<int, std::vector<idx_t>> const several{{ldos01, {0, 1}}, {ldos10, {1, 0}}, {ldos02, {0, 2}}, {vector0, {1, 2}}, {vector10, {1, 0}}, {vector2, {2, 0, 2}}};
    if (several.count(op)) {
        bool const ldos = op == ldos01 || op == ldos10 || op == ldos02;
        auto const e = energies();
        return result([&](Values& v) {
            auto const one = [&](std::function<void(cpb::kpm::Core&)> f) { cpb::kpm::Core core(ham, cpb::kpm::DefaultCompute(1), c); f(core); };
            if (ldos) {
                v.push_back(2.0);
                for (idx_t i : several.at(op)) { one([&](cpb::kpm::Core& k) { cpb::ArrayXXdCM const r = k.ldos({i}, e, 0.9); for (idx_t j = 0; j < r.rows(); ++j) { v.push_back(r(j, 0)); } }); }
            } else {
                idx_t const row = op == vector2 ? 2 : 0;
                for (idx_t i : several.at(op)) { one([&](cpb::kpm::Core& k) { put(v, k.greens(row, i, e, 0.9)); }); }
            }
        });
    }
    return separate(op);
}

// ------------------------------------------------------------------------------------------------ the interface for models
struct Known { std::string name; cpb::Model model; bool broken; };
std::vector<Known> const& models() {
    static std::vector<Known> const r = [] {
        std::vector<Known> r;
        auto const shift = [](bool dbl, float v) { return cpb::OnsiteModifier([v](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p, cpb::string_view) {
            for (idx_t i = 0; i < p.size(); ++i) { auto const x = v + 0.25f * p.x()[i]; if (e.tag == cpb::num::Tag::f32) { static_cast<float*>(e.data)[i] += x; } else if (e.tag == cpb::num::Tag::f64) { static_cast<double*>(e.data)[i] += x; } } }, false, dbl); };
        auto multi = Spec(); multi.vectors = {{1, 0, 0}, {0, 1, 0}};
        multi.sub("A", {0, 0, 0}, onsite_energy(0, 2, diagonal)); multi.sub("B", {0.5f, 0, 0}, onsite_energy(1, 1, diagonal)); multi.hop({0, 0, 0}, 0, 1, "a", hop_energy(0, 2, 1, true)); multi.hop({1, 0, 0}, 1, 0, "b", hop_energy(1, 1, 2, false));
        auto const sq = make(square());
        { cpb::Model m(sq, cpb::Primitive(2, 2)); r.push_back({"2x2", m, false}); }
        { cpb::Model m(sq, cpb::Primitive(2, 2)); m.add(shift(false, 1.5f)); r.push_back({"2x2 shifted", m, false}); }
        { cpb::Model m(make(multi), cpb::Primitive(2, 1)); r.push_back({"complex multi-orbital", m, false}); }
        { cpb::Model m(sq, cpb::Primitive(3, 2)); m.add(shift(true, -0.5f)); r.push_back({"3x2 double", m, false}); }
        { cpb::Model m(sq, ball({50.3f, 0.4f, 0}, 0.05f).shape); r.push_back({"impossible", m, true}); }
        return r;
    }();
    return r;
}
enum KpmOp { model0, model1, model2, model3, model4, k_ldos, k_ldos_sub, k_spatial, k_dos, k_greens, k_diagonal, k_vector, k_vector3, k_xx, k_xy, k_moments, k_bad_index, k_bad_alpha, k_bad_direction, k_report, kpm_ops };
char const* const kpm_names[] = {"set 2x2", "set 2x2 shifted", "set complex multi-orbital", "set 3x2 double", "set impossible", "ldos", "ldos of every orbital", "spatial ldos", "dos", "greens 0 1", "greens 0 0", "greens 1 {0 2}", "greens 1 {0 3}", "conductivity xx", "conductivity xy", "moments",
                                 "greens of a bad index", "moments of a bad vector", "conductivity in a bad direction", "report"};
Result run_kpm(cpb::KPM& kpm, int op, idx_t n) {
    auto const e = energies();
    return result([&](Values& v) {
        switch (op) {
            case k_ldos: put(v, kpm.calc_ldos(e, 0.9, {0.1f, 0.2f, 0}, "", true)); break;
            case k_ldos_sub: put(v, kpm.calc_ldos(e, 0.9, {1.1f, 0.2f, 0}, "A", false)); break;
            case k_spatial: put(v, kpm.calc_spatial_ldos(e, 0.9, ball({0, 0, 0}, 1.2f).shape)); break;
            case k_dos: put(v, kpm.calc_dos(e, 0.9, 3)); break;
            case k_greens: put(v, kpm.calc_greens(0, 1, e, 0.9)); break;
            case k_diagonal: put(v, kpm.calc_greens(0, 0, e, 0.9)); break;
            case k_vector: for (auto& g : kpm.calc_greens_vector(1, {0, 2}, e, 0.9)) { put(v, g); } break;
            case k_vector3: for (auto& g : kpm.calc_greens_vector(1, {0, 3}, e, 0.9)) { put(v, g); } break;
            case k_xx: put(v, kpm.calc_conductivity(e, 1.5, 5000, "xx", 2, 5)); break;
            case k_xy: put(v, kpm.calc_conductivity(e, 1.5, 5000, "xy", 2, 5)); break;
            case k_moments: { cpb::VectorXcd a(n); for (idx_t i = 0; i < n; ++i) { a[i] = 1.0 - 0.25 * double(i); } put(v, kpm.moments(7, a)); break; }
            case k_bad_index: kpm.calc_greens(0, n + 5, e, 0.9); break;
            case k_bad_alpha: kpm.moments(7, cpb::VectorXcd::Ones(n + 1)); break;
            case k_bad_direction: kpm.calc_conductivity(e, 1.5, 5000, "ab", 2, 5); break;
            case k_report: if (kpm.report(true).empty()) { throw std::runtime_error("empty report"); } break;
            default: kpm.set_model(models()[static_cast<size_t>(op)].model);
        }
    });
}

template<class F> void sequences(std::vector<int>& now, int ops, int depth, F f) {
    if (static_cast<int>(now.size()) == depth) { f(now); return; }
    for (int o = 0; o < ops; ++o) { now.push_back(o); sequences(now, ops, depth, f); now.pop_back(); }
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is the set of all operation sequences up to the depth with the same first two operations, starting Hamiltonian (model) and settings; every result is compared with that of a new object; distinct = sequences";
    info.states = "sequences"; info.transitions = "operations"; info.traces = "sequences";
    info.assumptions = {"the results of a new object are right (C11)"};
    return pbv::run(argc, argv, "C12", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        // ---- the low-level interface: `depth` operations
        for (int settings = 0; settings < 8; ++settings) { for (int manual = 0; manual < 2; ++manual) { for (int start = 0; start < 4; ++start) {
            int const depth = deep ? 4 : settings == 7 && start == 0 && !manual ? 4 : 3;
            if (!deep && (settings + manual + start) % 2 && depth == 3) { continue; }
            auto const config = kref::config(settings, manual ? cpb::kpm::lorentz_kernel(3) : cpb::kpm::jackson_kernel(), manual ? -6 : 0, manual ? 7 : 0);
            std::map<std::pair<int, int>, Result> known;
            auto const want = [&](int h, int op) -> Result const& { auto const k = std::make_pair(h, op); auto it = known.find(k); if (it == known.end()) { it = known.emplace(k, fresh_core(config, h, op)).first; } return it->second; };
            for (int a = 0; a < core_ops; ++a) { for (int b = 0; b < core_ops; ++b) {
                if (!w.next([&] { return str(kref::settings_text(settings), manual ? ", given bounds" : ", automatic bounds", ", H", start, ", all sequences of ", depth, " operations which start with: ", core_names[a], "; ", core_names[b]); })) { continue; }
                std::vector<int> now{a, b};
                bool ok = true;
                sequences(now, core_ops, depth, [&](std::vector<int> const& s) {
                    if (!ok) { return; }
                    cpb::kpm::Core core(hamiltonians()[static_cast<size_t>(start)], cpb::kpm::DefaultCompute(1), config);
                    int h = start;
                    for (size_t i = 0; ok && i < s.size(); ++i) {
                        auto const r = run_core(core, s[i], hamiltonians()[static_cast<size_t>(h)].rows());
                        if (s[i] <= set3) { h = s[i]; }
                        w.count("operations");
                        bool const is_double = h == 3;
                        ok = w.check(same(r, want(h, s[i]), is_double ? 1e-9 : 1e-5), "history", [&] {
                            std::string t; for (size_t k = 0; k <= i; ++k) { t += str(k ? "; " : "", core_names[s[k]]); } return t + ": got " + show(r) + ", a new object gives " + show(want(h, s[i])); });
                    }
                    w.count("sequences");
                });
                w.distinct(pbv::hash(w.current));
            } }
        } } }
        // ---- models
        int const depth = deep ? 4 : 3;
        for (int settings : {0, 7, 3, 4}) { for (int start = 0; start < 4; ++start) {
            if (!deep && settings != 7 && start != settings % 4) { continue; }
            auto const config = kref::config(settings, cpb::kpm::jackson_kernel());
            std::map<std::pair<int, int>, Result> known;
            auto const want = [&](int m, int op) -> Result const& {
                auto const k = std::make_pair(m, op); auto it = known.find(k);
                if (it == known.end()) { cpb::KPM kpm(models()[static_cast<size_t>(m)].model, cpb::kpm::DefaultCompute(1), config); it = known.emplace(k, run_kpm(kpm, op, kpm.get_model().hamiltonian().rows())).first; }
                return it->second;
            };
            for (int a = 0; a < kpm_ops; ++a) { for (int b = 0; b < kpm_ops; ++b) {
                if (!w.next([&] { return str(kref::settings_text(settings), ", ", models()[static_cast<size_t>(start)].name, ", all sequences of ", depth, " operations which start with: ", kpm_names[a], "; ", kpm_names[b]); })) { continue; }
                std::vector<int> now{a, b};
                bool ok = true;
                sequences(now, kpm_ops, depth, [&](std::vector<int> const& s) {
                    if (!ok) { return; }
                    auto original = models()[static_cast<size_t>(start)].model;
                    cpb::KPM kpm(original, cpb::kpm::DefaultCompute(1), config);
                    if (s.size() % 2) { original.add(cpb::Primitive(1, 1)); }   // of no consequence
                    int m = start;
                    for (size_t i = 0; ok && i < s.size(); ++i) {
                        auto const n = models()[static_cast<size_t>(m)].model.hamiltonian().rows();
                        auto const r = run_kpm(kpm, s[i], n);
                        w.count("operations");
                        auto const trace = [&] { std::string t; for (size_t k = 0; k <= i; ++k) { t += str(k ? "; " : "", kpm_names[s[k]]); } return t; };
                        if (s[i] <= model4) {
                            bool const broken = models()[static_cast<size_t>(s[i])].broken;
                            ok = w.check(r.problem.empty() != broken, "set model", [&] { return trace() + (broken ? ": there was no error" : ": " + r.problem); });
                            if (!broken) { m = s[i]; }
                            continue;
                        }
                        ok = w.check(same(r, want(m, s[i]), m == 3 ? 1e-9 : 1e-5), "history", [&] { return trace() + ": got " + show(r) + ", a new object gives " + show(want(m, s[i])); });
                        if (ok && s[i] >= k_bad_index && s[i] <= k_bad_direction) { ok = w.check(!r.problem.empty(), "rejected", [&] { return trace() + ": there was no error"; }); }
                    }
                    w.count("sequences");
                });
                w.distinct(pbv::hash(w.current));
            } }
        } }
    });
}
