// C18: KPM requests are validated -- every request built from the values around the limits, on every kind of model, on the real code
#include "kpm_ref.hpp"
#include "zoo.hpp"
using namespace gen;

namespace {

using cpb::ArrayXd; using cpb::ArrayXcd; using cpb::ArrayXXdCM; using cpb::VectorXcd; using cpb::SparseMatrixXcd;
double const kT = 5000, width = 0.9;

struct Known { std::string name; cpb::Model model; bool multi; };
std::vector<Known> const& models() {
    static std::vector<Known> const r = [] {
        std::vector<Known> r;
        auto two = Spec(); two.vectors = {{1, 0, 0}, {0, 1, 0}};
        two.sub("A", {0, 0, 0}, scalar(0.5)); two.sub("B", {0.5f, 0.25f, 0}, scalar(-0.5));
        auto alone = two;
        two.hop({0, 0, 0}, 0, 1, "a", scalar(1)); two.hop({1, 0, 0}, 1, 0, "b", scalar(0.5)); two.hop({0, 1, 0}, 0, 0, "c", scalar(-1));
        auto multi = Spec(); multi.vectors = {{1, 0, 0}, {0, 1, 0}};
        multi.sub("A", {0, 0, 0}, onsite_energy(0, 2, diagonal)); multi.sub("B", {0.5f, 0, 0}, onsite_energy(1, 1, diagonal)); multi.hop({0, 0, 0}, 0, 1, "a", hop_energy(0, 2, 1, true)); multi.hop({1, 0, 0}, 1, 0, "b", hop_energy(1, 1, 2, false));
        auto const shift = cpb::OnsiteModifier([](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p, cpb::string_view) {
            for (idx_t i = 0; i < p.size(); ++i) { auto const x = 0.25f * p.x()[i]; if (e.tag == cpb::num::Tag::f32) { static_cast<float*>(e.data)[i] += x; } else if (e.tag == cpb::num::Tag::f64) { static_cast<double*>(e.data)[i] += x; } } }, false, true);
        auto only = Spec(); only.vectors = {{1, 0, 0}}; only.sub("A", {0, 0, 0}, scalar(0.5)); only.hop({1, 0, 0}, 0, 0, "x", scalar(1));
        { cpb::Model m(make(only), cpb::Primitive(1)); r.push_back({"one site", m, false}); }
        { cpb::Model m(make(two), cpb::Primitive(2, 2)); r.push_back({"two sublattices", m, false}); }
        { cpb::Model m(make(multi), cpb::Primitive(2, 1)); r.push_back({"complex, several orbitals", m, true}); }
        { cpb::Model m(make(two), cpb::Primitive(2, 2)); m.add(cpb::TranslationalSymmetry(2, -1)); m.set_wave_vector({0.3f, 0, 0}); r.push_back({"periodic", m, false}); }
        { cpb::Model m(make(alone), cpb::Primitive(2, 1)); r.push_back({"independent sites", m, false}); }
        { cpb::Model m(make(two), cpb::Primitive(2, 2)); m.add(cpb::SiteStateModifier([](Eigen::Ref<cpb::ArrayX<bool>> s, cpb::CartesianArrayConstRef, cpb::string_view name) { if (name == "B") { s.setConstant(false); } })); r.push_back({"no B sites", m, false}); }
        { cpb::Model m(make(two), cpb::Primitive(2, 1)); m.add(shift); r.push_back({"double precision", m, false}); }
        for (auto& k : r) { k.model.eval(); k.model.hamiltonian(); }
        return r;
    }();
    return r;
}

std::string bad(double v) { return std::isfinite(v) ? "" : "a value which is not finite"; }
std::string bad(ArrayXd const& a, idx_t size) { if (a.size() != size) { return str(a.size(), " values instead of ", size); } for (idx_t i = 0; i < size; ++i) { if (!std::isfinite(a[i])) { return bad(a[i]); } } return ""; }
std::string bad(ArrayXcd const& a, idx_t size) { if (a.size() != size) { return str(a.size(), " values instead of ", size); } for (idx_t i = 0; i < size; ++i) { if (!std::isfinite(std::abs(a[i]))) { return bad(std::abs(a[i])); } } return ""; }
std::string bad(ArrayXXdCM const& a, idx_t rows, idx_t cols) {
    if (a.rows() != rows || a.cols() != cols) { return str(a.rows(), " x ", a.cols(), " values instead of ", rows, " x ", cols); }
    for (idx_t j = 0; j < cols; ++j) { for (idx_t i = 0; i < rows; ++i) { if (!std::isfinite(a(i, j))) { return bad(a(i, j)); } } }
    return "";
}

struct Tester {
    pbv::Worker& w; cpb::kpm::Config config; int which;
    cpb::KPM kpm; idx_t n, sites; double low, high; bool real;
    ArrayXd reference; ArrayXcd reference_green;
    bool ok = true;

    Tester(pbv::Worker& w, cpb::kpm::Config const& c, int which)
        : w(w), config(c), which(which), kpm(model(), cpb::kpm::DefaultCompute(1), c), n(model().hamiltonian().rows()), sites(model().system()->num_sites()), real(!model().is_complex()) {
        auto const s = kpm.get_core().scaling_factors(); low = s.b - s.a / 1.01; high = s.b + s.a / 1.01;
        cpb::KPM fresh(model(), cpb::kpm::DefaultCompute(1), c);
        reference = fresh.calc_ldos(energy(2), width, {0.1f, 0, 0}).col(0);
        cpb::KPM fresh2(model(), cpb::kpm::DefaultCompute(1), c);
        reference_green = fresh2.calc_greens(0, n - 1, energy(2), width);
    }
    cpb::Model const& model() const { return models()[static_cast<size_t>(which)].model; }
    bool multi() const { return models()[static_cast<size_t>(which)].multi; }
    ArrayXd energy(int count) const { ArrayXd e(count); for (int i = 0; i < count; ++i) { e[i] = low + (high - low) * (i + 0.5) / count; } return e; }

    /// One request: `valid` tells if it has to be done or rejected; `f` returns what is wrong with the result
    template<class F> void request(bool valid, std::string const& what, F f) {
        if (!ok) { return; }
        w.note(what);
        std::string problem; bool rejected = false, foreign = false;
        try { problem = f(); } catch (std::logic_error const& e) { rejected = true; problem = str("the error: ", e.what()); } catch (std::runtime_error const& e) { rejected = true; problem = str("the error: ", e.what()); }
        catch (std::exception const& e) { foreign = true; problem = e.what(); }
        w.count(valid ? "valid requests" : "bad requests");
        if (valid) { ok = w.check(!rejected && !foreign && problem.empty(), "valid", [&] { return what + ": " + problem; }); }
        else { ok = w.check(rejected && !foreign, "rejected", [&] { return what + ": " + (foreign ? "not rejected by a check, but " + problem : "was not rejected"); }); }
        if (!ok) { return; }
        // still usable
        auto const later = kref::thrown([&] {
            ArrayXd const l = kpm.calc_ldos(energy(2), width, {0.1f, 0, 0}).col(0); ArrayXcd const g = kpm.calc_greens(0, n - 1, energy(2), width);
            double const scale = 1e-4 * (1e-3 + reference.abs().maxCoeff() + reference_green.abs().maxCoeff());
            if (l.size() != 2 || g.size() != 2 || !((l - reference).abs().maxCoeff() < scale) || !((g - reference_green).abs().maxCoeff() < scale)) { throw std::runtime_error("other results than before"); }
        });
        ok = w.check(later.empty(), "usable", [&] { return str("after ", what, ": ", later); });
    }
};

template<class F> void strings(std::string const& letters, int max, F f) {
    std::vector<std::string> now{""};
    for (int l = 0; l <= max; ++l) { std::vector<std::string> next; for (auto& s : now) { f(s); for (char c : letters) { next.push_back(s + c); } } now = next; }
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is one model, setting and kind of request with every combination of the values around its limits; after each request the object must give the same results as before; distinct = cases";
    info.states = "distinct"; info.transitions = "requests"; info.traces = "requests";
    info.assumptions = {"energies are within the spectrum and temperatures positive; the values of results are decided by C11 and C12"};
    return pbv::run(argc, argv, "C18", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        double const inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
        idx_t const huge = std::numeric_limits<idx_t>::max();
        for (int which = 0; which < static_cast<int>(models().size()); ++which) { for (int settings = 0; settings < 8; ++settings) { for (int kernel = 0; kernel < 2; ++kernel) {
            if (kernel && !deep && settings % 3) { continue; }
            auto const config = kref::config(settings, kernel ? cpb::kpm::lorentz_kernel(3) : cpb::kpm::jackson_kernel(), kernel ? -7 : 0, kernel ? 7 : 0);
            auto const c = [&](char const* kind, auto f) {
                if (!w.next([&] { return str(models()[static_cast<size_t>(which)].name, ", ", kref::settings_text(settings), kernel ? ", given bounds" : "", ": ", kind); })) { return; }
                w.distinct(pbv::hash(w.current));
                auto const problem = kref::thrown([&] { Tester t(w, config, which); f(t); w.counts["requests"] += 1; });
                w.check(problem.empty(), "setup", [&] { return problem; });
            };
            c("Green's function", [&](Tester& t) {
                std::vector<idx_t> values{-huge, -t.n, -2, -1}; for (idx_t i = 0; i < t.n + 3; ++i) { values.push_back(i); } values.push_back(2 * t.n); values.push_back(huge);
                for (auto i : values) { for (auto j : values) {
                    bool const valid = i >= 0 && i < t.n && j >= 0 && j < t.n;
                    t.request(valid, str("calc_greens ", i, " ", j, " of ", t.n), [&] { return bad(t.kpm.calc_greens(i, j, t.energy(3), width), 3); });
                } }
            });
            c("Green's functions", [&](Tester& t) {
                std::vector<idx_t> const rows{-1, 0, t.n - 1, t.n}, cols{-1, 0, 1, t.n - 1, t.n, huge};
                for (auto row : rows) { for (int length = 0; length <= (deep ? 4 : 3); ++length) {
                    long total = 1; for (int i = 0; i < length; ++i) { total *= 6; }
                    for (long code = 0; code < total; ++code) {
                        std::vector<idx_t> v; for (long k = code, i = 0; i < length; ++i, k /= 6) { v.push_back(cols[static_cast<size_t>(k % 6)]); }
                        bool valid = row >= 0 && row < t.n; std::string text; for (auto j : v) { valid = valid && j >= 0 && j < t.n; text += str(" ", j); }
                        t.request(valid, str("calc_greens ", row, " {", text, " } of ", t.n), [&] {
                            auto const g = t.kpm.calc_greens_vector(row, v, t.energy(2), width);
                            if (g.size() != v.size()) { return str(g.size(), " functions instead of ", v.size()); }
                            std::string p; for (auto& x : g) { p += bad(x, 2); } return p;
                        });
                    }
                } }
            });
            c("broadening", [&](Tester& t) {
                for (double b : {nan, -inf, -1.0, -1e-300, -0.0, 0.0, 1e-2, 0.9, 5.0, 100.0}) {
                    bool const valid = b > 0; auto const text = str(" broadening ", b); auto const e = t.energy(3);
                    t.request(valid, "calc_greens," + text, [&] { return bad(t.kpm.calc_greens(0, 0, e, b), 3); });
                    t.request(valid, "calc_greens of two," + text, [&] { auto const g = t.kpm.calc_greens_vector(0, {0, t.n - 1}, e, b); return g.size() == 2 ? bad(g[0], 3) + bad(g[1], 3) : "wrong size"; });
                    t.request(valid, "calc_ldos," + text, [&] { return bad(t.kpm.calc_ldos(e, b, {0, 0, 0}), 3, 1); });
                    t.request(valid && !t.multi(), "calc_spatial_ldos," + text, [&] { return bad(t.kpm.calc_spatial_ldos(e, b, ball({0, 0, 0}, 100).shape), 3, t.sites); });
                    t.request(valid, "calc_dos," + text, [&] { return bad(t.kpm.calc_dos(e, b, 2), 3); });
                    if (b > 0 && b < 0.1) { continue; }   // takes long
                    t.request(valid, "calc_conductivity," + text, [&] { return bad(t.kpm.calc_conductivity(e, b, kT, "xx", 1, 4), 3); });
                }
            });
            c("energies", [&](Tester& t) {
                for (int count : {0, 1, 2, 5, 33}) {
                    auto const text = str(" ", count, " energies"); auto const e = t.energy(count);
                    t.request(true, "calc_greens," + text, [&] { return bad(t.kpm.calc_greens(0, 0, e, width), count) + bad(t.kpm.calc_greens(0, t.n - 1, e, width), count); });
                    t.request(true, "calc_ldos," + text, [&] { return bad(t.kpm.calc_ldos(e, width, {0, 0, 0}), count, 1); });
                    t.request(!t.multi(), "calc_spatial_ldos," + text, [&] { return bad(t.kpm.calc_spatial_ldos(e, width, ball({0, 0, 0}, 100).shape), count, t.sites); });
                    t.request(true, "calc_dos," + text, [&] { return bad(t.kpm.calc_dos(e, width, 2), count); });
                    t.request(true, "calc_conductivity," + text, [&] { return bad(t.kpm.calc_conductivity(e, width, kT, "xx", 1, 4), count); });
                }
            });
            c("local density of states", [&](Tester& t) {
                auto const sys = t.model().system();
                for (std::string sub : {"", "A", "B", "C", "a", "AB", "A "}) { for (float x : {-1e6f, -0.4f, 0.6f, 1.1f, 1e6f}) { for (float y : {-0.6f, 0.3f, 0.9f}) { for (bool reduce : {true, false}) {
                    // the nearest site of the sublattice, by a search over all the sites
                    idx_t best = -1; double d = inf; bool tie = false;
                    for (auto const& s : sys->compressed_sublattices) { for (auto i = s.sys_start(); i < s.sys_end(); ++i) {
                        if (!sub.empty() && sys->site_registry.name(s.id()) != sub) { continue; }
                        double const r = (Eigen::Vector3d(sys->positions.x[i], sys->positions.y[i], sys->positions.z[i]) - Eigen::Vector3d(static_cast<double>(x), static_cast<double>(y), 0)).norm();
                        if (std::abs(r - d) < 1e-3 + 1e-6 * std::abs(static_cast<double>(x))) { tie = true; }
                        if (r < d) { tie = tie && std::abs(r - d) < 1e-3 + 1e-6 * std::abs(static_cast<double>(x)); d = r; best = i; }
                    } }
                    t.request(best >= 0, str("calc_ldos at ", x, " ", y, " of '", sub, "'", reduce ? "" : ", every orbital"), [&] {
                        ArrayXXdCM const got = t.kpm.calc_ldos(t.energy(3), width, {x, y, 0}, sub, reduce);
                        auto const orbitals = sys->to_hamiltonian_indices(best);
                        auto const p = bad(got, 3, reduce ? 1 : orbitals.size());
                        if (!p.empty() || tie) { return p; }
                        std::vector<idx_t> v(orbitals.data(), orbitals.data() + orbitals.size());
                        cpb::kpm::Core core(t.model().hamiltonian(), cpb::kpm::DefaultCompute(1), t.config);
                        ArrayXXdCM const all = core.ldos(v, t.energy(3), width); ArrayXXdCM const want = reduce ? ArrayXXdCM(all.rowwise().sum()) : all;
                        return (got - want).abs().maxCoeff() <= 1e-4 * (1e-3 + want.abs().maxCoeff()) ? std::string() : str("not the density of site ", best);
                    });
                } } } }
            });
            c("spatial local density of states", [&](Tester& t) {
                auto const sys = t.model().system();
                for (std::string sub : {"", "A", "B", "C", "a"}) { for (float x : {0.0f, 0.6f, 1.0f, 50.0f}) { for (float radius : {0.05f, 0.7f, 1.4f, 20.0f, 1000.0f}) {
                    auto const shape = ball({x, 0.1f, 0}, radius); std::vector<idx_t> inside; bool known = sub.empty();
                    auto const contains = shape.shape.contains(sys->positions);
                    for (auto const& s : sys->compressed_sublattices) {
                        if (!sub.empty() && sys->site_registry.name(s.id()) != sub) { continue; }
                        known = true;
                        for (auto i = s.sys_start(); i < s.sys_end(); ++i) { if (contains[i]) { inside.push_back(i); } }
                    }
                    bool const vague = !known && t.which == 5;   // a sublattice of the lattice which has lost all its sites: nothing or an error
                    if (vague) { continue; }
                    t.request(known && !t.multi(), str("calc_spatial_ldos, radius ", radius, " at ", x, " of '", sub, "'"), [&] {
                        ArrayXXdCM const got = t.kpm.calc_spatial_ldos(t.energy(3), width, shape.shape, sub);
                        auto const p = bad(got, 3, static_cast<idx_t>(inside.size()));
                        if (!p.empty()) { return p; }
                        for (size_t k = 0; k < inside.size(); ++k) {
                            cpb::kpm::Core core(t.model().hamiltonian(), cpb::kpm::DefaultCompute(1), t.config);
                            ArrayXd const want = core.ldos({inside[k]}, t.energy(3), width).col(0);
                            if (!((got.col(static_cast<idx_t>(k)) - want).abs().maxCoeff() <= 1e-4 * (1e-3 + want.abs().maxCoeff()))) { return str("column ", k, " is not the density of site ", inside[k]); }
                        }
                        return std::string();
                    });
                } } }
            });
            c("density of states", [&](Tester& t) {
                for (idx_t r : {-huge, idx_t{-2}, idx_t{-1}, idx_t{0}, idx_t{1}, idx_t{2}, idx_t{3}, idx_t{4}, idx_t{5}, idx_t{9}, idx_t{17}}) { t.request(r > 0, str("calc_dos, ", r, " vectors"), [&] { return bad(t.kpm.calc_dos(t.energy(3), width, r), 3); }); }
            });
            c("conductivity", [&](Tester& t) {
                strings("xyza X", deep ? 4 : 3, [&](std::string const& d) {
                    bool const valid = d.size() == 2 && d.find_first_not_of("xyz") == std::string::npos;
                    t.request(valid, str("calc_conductivity in the direction '", d, "'"), [&] { return bad(t.kpm.calc_conductivity(t.energy(2), 2 * width, kT, d, 1, 4), 2); });
                });
                for (idx_t r : {idx_t{-1}, idx_t{0}, idx_t{1}, idx_t{2}}) { for (idx_t points : {idx_t{-1}, idx_t{0}, idx_t{1}, idx_t{2}, idx_t{3}, idx_t{10}}) {
                    t.request(r > 0 && points > 1, str("calc_conductivity, ", r, " vectors and ", points, " points"), [&] { return bad(t.kpm.calc_conductivity(t.energy(2), 2 * width, kT, "xy", r, points), 2); });
                } }
            });
            c("moments", [&](Tester& t) {
                auto const vec = [](idx_t size, bool cplx) { VectorXcd v(size); for (idx_t i = 0; i < size; ++i) { v[i] = cd(1 - 0.25 * double(i % 3), cplx && i == size - 1 ? 0.5 : 0); } return v; };
                auto const op = [](idx_t rows, idx_t cols, bool cplx) { SparseMatrixXcd m(rows, cols); if (rows > 0 && cols > 0) { m.insert(0, cols - 1) = cd(1, cplx ? 1 : 0); if (rows > 1) { m.insert(rows - 1, 0) = cd(0.5, 0); } } m.makeCompressed(); return m; };
                auto const n = t.n;
                for (idx_t num : {-huge, idx_t{-1}, idx_t{1}, idx_t{2}, idx_t{3}, idx_t{5}, idx_t{6}, idx_t{7}, idx_t{30}}) { for (bool generic : {false, true}) {
                    t.request(num > 0, str(num, " moments", generic ? " of two vectors" : ""), [&] { return bad(ArrayXcd(t.kpm.moments(num, vec(n, false), generic ? vec(n, false) : VectorXcd())), num); });
                } }
                for (idx_t a : {idx_t{0}, n - 1, n, n + 1, 2 * n}) { for (idx_t b : {idx_t{0}, n - 1, n, n + 1}) { for (auto size : {std::make_pair(idx_t{0}, idx_t{0}), std::make_pair(n, n), std::make_pair(n, n + 1), std::make_pair(n + 1, n), std::make_pair(n + 1, n + 1), std::make_pair(n - 1, n - 1), std::make_pair(n * n, idx_t{1}), std::make_pair(idx_t{1}, n * n), std::make_pair(2 * n, n / 2), std::make_pair(n / 2, 2 * n)}) {
                    for (int cplx = 0; cplx < 8; ++cplx) {
                        bool const ca = cplx & 1, cb = cplx & 2, co = cplx & 4;
                        if ((cb && b == 0) || (co && size.first * size.second == 0) || (ca && a == 0)) { continue; }
                        bool const sizes = a == n && (b == 0 || b == n) && (size.first * size.second == 0 || (size.first == n && size.second == n));
                        if (!sizes && cplx) { continue; }
                        t.request(sizes && (!t.real || !cplx), str("moments: alpha of ", a, ca ? " complex" : "", ", beta of ", b, cb ? " complex" : "", ", operator of ", size.first, "x", size.second, co ? " complex" : "", ", Hamiltonian of ", n), [&] {
                            return bad(ArrayXcd(t.kpm.moments(5, vec(a, ca), vec(b, cb), op(size.first, size.second, co))), 5); });
                    }
                } } }
            });
        } } }
        // ---- configuration
        for (int which = 0; which < static_cast<int>(models().size()); ++which) {
            if (!w.next([&] { return str(models()[static_cast<size_t>(which)].name, ": energy ranges and precisions"); })) { continue; }
            w.distinct(pbv::hash(w.current));
            for (double min : {-7.0, 0.0, 2.0, 7.0}) { for (double max : {-7.0, 0.0, 2.0, 7.0}) {
                auto const problem = kref::thrown([&] { cpb::KPM kpm(models()[static_cast<size_t>(which)].model, cpb::kpm::DefaultCompute(1), kref::config(3, cpb::kpm::jackson_kernel(), min, max)); auto const s = kpm.get_core().scaling_factors(); if (min < max && std::abs(s.b - 0.5 * (min + max)) > 1e-3) { throw std::runtime_error("another range"); } });
                w.count("requests");
                w.check(problem.empty() == (min <= max), "range", [&] { return str("energy range ", min, " to ", max, ": ", problem.empty() ? "accepted" : problem); });
            } }
        }
    });
}
