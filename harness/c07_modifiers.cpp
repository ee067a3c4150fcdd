// C07: energy modifiers -- every sequence of modifiers on every system of a zoo, against the modified list of sites and bonds
#include "zoo.hpp"
using namespace gen;
using cpb::num::Tag;

namespace {

double const pi = 3.14159265358979323846;
struct Letter { char const* name; bool onsite, complex, dbl; std::function<void(MatrixXcd&, Cartesian, Cartesian, std::string const&)> f; };

std::vector<Letter> const& letters() {
    // The hopping letters treat a bond and its reverse alike: f(e^+, p2, p1) = f(e, p1, p2)^+
    static std::vector<Letter> const r = {
        {"onsite += f(x)", true, false, false, [](MatrixXcd& e, Cartesian p, Cartesian, std::string const&) {
            for (idx_t i = 0; i < e.rows(); ++i) { e(i, i) += 0.5 * p.x() + 0.25 * p.y() - p.z() + 0.125 * double(i + 1); } }},
        {"onsite doubled right", true, false, false, [](MatrixXcd& e, Cartesian p, Cartesian, std::string const&) { if (p.x() > 0.3f) { e *= 2; } }},
        {"onsite set on B", true, false, false, [](MatrixXcd& e, Cartesian p, Cartesian, std::string const& f) {
            if (f != "B") { return; }
            for (idx_t i = 0; i < e.rows(); ++i) { for (idx_t j = 0; j < e.cols(); ++j) { e(i, j) = double((i + 1) * (j + 1)) - p.y(); } } }},
        {"onsite complex (declared)", true, true, false, [](MatrixXcd& e, Cartesian p, Cartesian, std::string const&) {
            for (idx_t i = 0; i < e.rows(); ++i) { for (idx_t j = i + 1; j < e.cols(); ++j) { e(i, j) += cd(0.5, 1 + p.x()); e(j, i) += cd(0.5, -1 - p.x()); } } }},
        {"onsite absorbing (not declared)", true, false, false, [](MatrixXcd& e, Cartesian p, Cartesian, std::string const&) {
            if (p.x() > 0.3f) { for (idx_t i = 0; i < e.rows(); ++i) { e(i, i) += cd(0, -0.25 * double(i + 1)); } } }},
        {"onsite += 1/3 (double)", true, false, true, [](MatrixXcd& e, Cartesian, Cartesian, std::string const&) { for (idx_t i = 0; i < e.rows(); ++i) { e(i, i) += 1.0 / 3; } }},
        {"onsite zero on A", true, false, false, [](MatrixXcd& e, Cartesian, Cartesian, std::string const& f) { if (f == "A") { e.setZero(); } }},
        {"hop phase (declared)", false, true, false, [](MatrixXcd& e, Cartesian a, Cartesian b, std::string const&) {
            e *= std::exp(cd(0, 1) * (0.5 * (b.x() - a.x()) + double(a.x()) * b.y() - double(b.x()) * a.y())); }},
        {"hop phase on one name (not declared)", false, false, false, [](MatrixXcd& e, Cartesian a, Cartesian b, std::string const& f) {
            if (f == "b" || f == "t" || f == "t0" || f == "new0") { e *= std::exp(cd(0, 1) * (0.25 + 0.0 * pi) * double((b - a).x() + 2 * (b - a).y() + 4 * (b - a).z())); } }},
        {"hop += s(length)", false, false, false, [](MatrixXcd& e, Cartesian a, Cartesian b, std::string const&) { e.array() += 0.25 * (1 + (b - a).squaredNorm()); }},
        {"hop rows and columns scaled", false, false, false, [](MatrixXcd& e, Cartesian a, Cartesian b, std::string const&) {
            auto const g = [](idx_t i, Cartesian p) { return 1 + 0.25 * double(i) + 0.125 * p.x() - 0.0625 * p.y(); };
            for (idx_t i = 0; i < e.rows(); ++i) { for (idx_t j = 0; j < e.cols(); ++j) { e(i, j) *= g(i, a) * g(j, b); } } }},
        {"hop zero right", false, false, false, [](MatrixXcd& e, Cartesian a, Cartesian b, std::string const&) { if (a.x() + b.x() > 0.6f) { e.setZero(); } }},
        {"hop *= 4/3 (double)", false, false, true, [](MatrixXcd& e, Cartesian, Cartesian, std::string const&) { e *= 4.0 / 3; }},
    };
    return r;
}

/// View of the array which is given to a modifier
struct View {
    cpb::num::ArrayRef a; idx_t rows, cols, n;
    explicit View(cpb::ComplexArrayRef const& r) : a(r) {
        if (a.ndim == 1) { rows = cols = 1; n = a.shape[0]; } else { rows = a.shape[0]; cols = a.shape[1]; n = a.shape[2]; }
    }
    bool real() const { return a.tag == Tag::f32 || a.tag == Tag::f64; }
    bool dbl() const { return a.tag == Tag::f64 || a.tag == Tag::cf64; }
    idx_t at(idx_t i, idx_t j, idx_t k) const { return (i * cols + j) * n + k; }
    cd get(idx_t p) const {
        switch (a.tag) {
            case Tag::f32: return static_cast<float const*>(a.data)[p];
            case Tag::f64: return static_cast<double const*>(a.data)[p];
            case Tag::cf32: return cd(static_cast<std::complex<float> const*>(a.data)[p]);
            default: return static_cast<cd const*>(a.data)[p];
        }
    }
    void set(idx_t p, cd v) const {
        switch (a.tag) {
            case Tag::f32: static_cast<float*>(a.data)[p] = static_cast<float>(v.real()); break;
            case Tag::f64: static_cast<double*>(a.data)[p] = v.real(); break;
            case Tag::cf32: static_cast<std::complex<float>*>(a.data)[p] = std::complex<float>(v); break;
            default: static_cast<cd*>(a.data)[p] = v;
        }
    }
    MatrixXcd matrix(idx_t k) const { MatrixXcd m(rows, cols); for (idx_t i = 0; i < rows; ++i) { for (idx_t j = 0; j < cols; ++j) { m(i, j) = get(at(i, j, k)); } } return m; }
    void matrix(idx_t k, MatrixXcd const& m) const { for (idx_t i = 0; i < rows; ++i) { for (idx_t j = 0; j < cols; ++j) { set(at(i, j, k), m(i, j)); } } }
};

/// The current energies of all sites and bonds, before each modifier
struct Element { Cartesian a, b; std::string family; std::vector<MatrixXcd> stages; std::map<Tag, std::vector<int>> calls; int row, col; Cartesian shift; };
struct Tables {
    std::vector<Element> sites, bonds; bool returned_complex = false; std::string problem;
    std::map<std::string, std::vector<int>> index;   // by name and rounded position
    static std::string key(Cartesian a, Cartesian b, std::string const& f) {
        auto const q = [](float v) { return std::lround(v * 256); };
        return str(f, " ", q(a.x()), " ", q(a.y()), " ", q(a.z()), " ", q(b.x()), " ", q(b.y()), " ", q(b.z()));
    }
};

Tables tables(cpb::System const& s, std::map<std::string, MatrixXcd> const& onsite, std::map<std::string, MatrixXcd> const& hop) {
    Tables t;
    auto const real = real_sites(s);
    for (auto& x : real) { t.sites.push_back({x.pos, Cartesian(0, 0, 0), x.family, {onsite.at(x.family)}, {}, 0, 0, Cartesian(0, 0, 0)}); }
    auto const add = [&](cpb::HoppingBlocks const& h, Cartesian shift) {
        for (auto const& b : h) {
            auto const name = s.hopping_registry.name(b.family_id());
            for (auto const& c : b.coordinates()) { t.bonds.push_back({real[static_cast<size_t>(c.row)].pos, real[static_cast<size_t>(c.col)].pos - shift, name, {hop.at(name)}, {}, c.row, c.col, Cartesian(-shift)}); }
        }
    };
    add(s.hopping_blocks, Cartesian(0, 0, 0));
    for (auto const& b : s.boundaries) { add(b.hopping_blocks, b.shift); }
    for (size_t i = 0; i < t.sites.size(); ++i) { t.index["s " + Tables::key(t.sites[i].a, t.sites[i].b, t.sites[i].family)].push_back(static_cast<int>(i)); }
    for (size_t i = 0; i < t.bonds.size(); ++i) { t.index["b " + Tables::key(t.bonds[i].a, t.bonds[i].b, t.bonds[i].family)].push_back(static_cast<int>(i)); }
    return t;
}

void apply(Tables& t, std::vector<int> const& seq) {
    for (int l : seq) {
        auto const& x = letters()[static_cast<size_t>(l)];
        for (auto set : {&t.sites, &t.bonds}) {
            for (auto& e : *set) {
                if (x.onsite != (set == &t.sites)) { continue; }
                auto m = e.stages.back();
                x.f(m, e.a, e.b, e.family);
                if (m.imag().cwiseAbs().maxCoeff() > 0) { t.returned_complex = true; }
                e.stages.push_back(m);
            }
        }
    }
}

void add(cpb::Model& m, Tables& t, Letter const& x, size_t stage) {
    auto const call = [&t, &x, stage](cpb::ComplexArrayRef ref, cpb::CartesianArrayConstRef a, cpb::CartesianArrayConstRef const* b, cpb::string_view family) {
        View const v(ref);
        auto const fail = [&](std::string const& s) { if (t.problem.empty()) { t.problem = str(x.name, ": ", s); } };
        if (a.size() != v.n || (b && b->size() != v.n)) { fail(str(a.size(), " positions for ", v.n, " elements")); return; }
        if ((v.rows * v.cols == 1) != (v.a.ndim == 1)) { fail("unexpected dimensions"); }
        auto const scale = v.dbl() ? 1e-12 : 2e-5;
        std::vector<MatrixXcd> out;
        for (idx_t k = 0; k < v.n; ++k) {
            auto m = v.matrix(k);
            Cartesian const pa(a.x()[k], a.y()[k], a.z()[k]); Cartesian pb(0, 0, 0); if (b) { pb = Cartesian(b->x()[k], b->y()[k], b->z()[k]); }
            auto const name = std::string(family);
            bool reversed = false;
            auto it = t.index.find((b ? "b " : "s ") + Tables::key(pa, pb, name));
            if (it == t.index.end() && b) { it = t.index.find("b " + Tables::key(pb, pa, name)); reversed = true; }
            if (it == t.index.end()) { fail(str("called with ", name, " at ", text(pa), text(pb), " which is not in the system")); }
            else {
                // elements which share name and positions are told apart by order only
                int best = -1;
                for (int c : it->second) {
                    auto& e = (b ? t.bonds : t.sites)[static_cast<size_t>(c)];
                    auto& n = e.calls[v.a.tag]; if (n.size() <= stage) { n.resize(stage + 1, 0); }
                    if (best < 0 || n[stage] < (b ? t.bonds : t.sites)[static_cast<size_t>(best)].calls[v.a.tag][stage]) { best = c; }
                }
                auto& e = (b ? t.bonds : t.sites)[static_cast<size_t>(best)];
                ++e.calls[v.a.tag][stage];
                MatrixXcd want = e.stages[stage]; if (reversed) { want = want.adjoint().eval(); }
                auto const d = difference(m, v.real() ? MatrixXcd(want.real().cast<cd>()) : want);
                if (!(d <= scale * (1 + want.cwiseAbs().maxCoeff()))) { fail(str(name, " at ", text(pa), text(pb), " has the energy ", text(m), ", expected ", text(want))); }
            }
            x.f(m, pa, pb, name);
            if (v.real() && m.imag().cwiseAbs().maxCoeff() > 0) { throw cpb::ComplexOverride(); }
            out.push_back(m);
        }
        for (idx_t k = 0; k < v.n; ++k) { v.matrix(k, out[static_cast<size_t>(k)]); }
    };
    if (x.onsite) { m.add(cpb::OnsiteModifier([call](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p, cpb::string_view s) { call(e, p, nullptr, s); }, x.complex, x.dbl)); }
    else { m.add(cpb::HoppingModifier([call](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef a, cpb::CartesianArrayConstRef b, cpb::string_view s) { call(e, a, &b, s); }, x.complex, x.dbl)); }
}

MatrixXcd dense(cpb::System const& s, Tables const& t, Cartesian k) {
    int size; auto const offset = orbital_offsets(s, size);
    MatrixXcd h = MatrixXcd::Zero(size, size);
    for (size_t i = 0; i < t.sites.size(); ++i) { auto const& e = t.sites[i].stages.back(); h.block(offset[i], offset[i], e.rows(), e.cols()) += e; }
    for (auto& b : t.bonds) {
        auto const oa = offset[static_cast<size_t>(b.row)], ob = offset[static_cast<size_t>(b.col)];
        MatrixXcd const e = b.stages.back() * std::exp(cd(0, -1) * k.cast<double>().dot(b.shift.cast<double>()));
        h.block(oa, ob, e.rows(), e.cols()) += e; h.block(ob, oa, e.cols(), e.rows()) += e.adjoint();
    }
    return h;
}

std::map<std::string, MatrixXcd> onsite_map(Spec const& s, std::vector<int> const& ops) {
    std::map<std::string, MatrixXcd> r;
    for (size_t i = 0; i < s.subs.size(); ++i) { if (s.subs[i].original == static_cast<int>(i)) { r[s.subs[i].name] = hermitian(s.subs[i].energy); } }
    for (size_t n = 0; n < ops.size(); ++n) {
        auto const o = ops[n]; int const norb = o == zoo_sites1 ? 1 : o == zoo_sites2 ? 2 : 3;
        if (o == zoo_sites1 || o == zoo_sites2 || o == zoo_sites_none) { r[str("new", n)] = hermitian(onsite_energy(5 + static_cast<int>(n), norb, norb == 2 ? upper_complex : diagonal)); }
    }
    return r;
}
std::map<std::string, MatrixXcd> hop_map(Spec const& s, std::vector<int> const& ops) {
    std::map<std::string, MatrixXcd> r;
    for (auto& t : s.terms) { r[t.family] = t.energy; }
    for (size_t n = 0; n < ops.size(); ++n) { if (ops[n] == zoo_bonds) { r[str("new", n)] = hop_energy(3 + static_cast<int>(n), 1, 1, true); } }
    return r;
}
bool any_complex(std::map<std::string, MatrixXcd> const& a) { for (auto& p : a) { if (p.second.imag().cwiseAbs().maxCoeff() > 0) { return true; } } return false; }

std::unique_ptr<cpb::Model> build(ZooBase const& base, std::vector<int> const& ops) {
    auto m = std::unique_ptr<cpb::Model>(new cpb::Model(make(base.spec)));
    if (base.shaped) { m->add(base.shape.shape); } else { m->add(cpb::Primitive(base.block[0], base.block[1], base.block[2])); }
    if (base.period != Index3D(0, 0, 0)) {
        float len[3] = {-1, -1, -1};
        for (int d = 0; d < base.spec.ndim(); ++d) { if (base.period[d] > 0) { len[d] = static_cast<float>(base.period[d]) * base.spec.vectors[static_cast<size_t>(d)].norm(); } }
        m->add(cpb::TranslationalSymmetry(len[0], len[1], len[2]));
    }
    for (size_t n = 0; n < ops.size(); ++n) { zoo_apply(*m, base.spec, ops[n], static_cast<int>(n)); }
    return m;
}

void run_case(pbv::Worker& w, ZooBase const& base, std::vector<int> const& ops, std::vector<int> const& seq) {
    auto model = build(base, ops);
    auto const on = onsite_map(base.spec, ops), hp = hop_map(base.spec, ops);
    auto const& s = *model->system();
    auto t = tables(s, on, hp);
    apply(t, seq);
    bool dbl = false, declared = false;
    size_t on_stage = 0, hop_stage = 0;
    for (int l : seq) { auto const& x = letters()[static_cast<size_t>(l)]; dbl |= x.dbl; declared |= x.complex; add(*model, t, x, x.onsite ? on_stage++ : hop_stage++); }
    bool const periodic = base.period != Index3D(0, 0, 0);
    bool const cplx = declared || periodic || t.returned_complex || any_complex(on) || any_complex(hp);
    for (int step = 0; step < (periodic ? 2 : 1); ++step) {
        Cartesian const k = step ? Cartesian(0.75f, -0.5f, 0.25f) : Cartesian(0, 0, 0);
        if (step) { model->set_wave_vector(k); }
        for (auto set : {&t.sites, &t.bonds}) { for (auto& e : *set) { e.calls.clear(); } }
        auto const problem = thrown([&] { model->hamiltonian(); });
        if (!w.check(problem.empty(), "error", [&] { return problem; })) { return; }
        if (!w.check(t.problem.empty(), "arguments", [&] { return t.problem; })) { return; }
        auto const d = ref::dense(model->hamiltonian());
        if (!w.check(d.valid, "storage", [&] { return d.problem; })) { return; }
        if (!w.check(d.is_complex == cplx && d.is_double == dbl, "type", [&] {
                return str("the matrix is ", d.is_complex ? "complex " : "real ", d.is_double ? "double" : "single", ", expected ", cplx ? "complex " : "real ", dbl ? "double" : "single"); })) { return; }
        if (!w.check(model->is_complex() == cplx && model->is_double() == dbl, "flags", [&] { return str("is_complex ", model->is_complex(), " is_double ", model->is_double()); })) { return; }
        auto const tag = cplx ? (dbl ? Tag::cf64 : Tag::cf32) : (dbl ? Tag::f64 : Tag::f32);
        for (auto set : {&t.sites, &t.bonds}) { for (auto& e : *set) {
            auto const stages = set == &t.sites ? on_stage : hop_stage;
            auto const& n = e.calls[tag]; bool ok = n.size() == stages; for (auto c : n) { ok = ok && c == 1; }
            if (!w.check(ok, "calls", [&] { auto o = str(e.family, " at ", text(e.a), text(e.b), " was passed"); for (auto c : n) { o += str(" ", c); } return o + " times to the modifiers"; })) { return; }
        } }
        auto const want = dense(s, t, k);
        auto const top = 1 + want.cwiseAbs().maxCoeff();
        auto const tolerance = top * (dbl && step == 0 ? 1e-12 : 2e-5);
        if (!w.check(difference(d.m, want) <= tolerance, "hamiltonian", [&] { return where(d.m, want); })) { return; }
        w.count("models");
        if (seq.size() > 1) { w.distinct(pbv::hash(w.current + str(step))); }
    }
}

/// A modifier which returns an invalid number at one element must be reported
void invalid_values(pbv::Worker& w, ZooBase const& base, bool onsite, double bad, bool dbl) {
    auto probe = build(base, {});
    idx_t count = 0;
    for (idx_t at = -1; at < count || at < 0; ++at) {
        auto m = build(base, {});
        idx_t seen = 0;
        auto const f = [&](cpb::ComplexArrayRef ref) {
            View const v(ref);
            for (idx_t k = 0; k < v.rows * v.cols * v.n; ++k, ++seen) { if (seen == at) { v.set(k, bad); } }
        };
        if (onsite) { m->add(cpb::OnsiteModifier([&](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef, cpb::string_view) { f(e); }, false, dbl)); }
        else { m->add(cpb::HoppingModifier([&](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef, cpb::CartesianArrayConstRef, cpb::string_view) { f(e); }, false, dbl)); }
        auto const problem = thrown([&] { m->hamiltonian(); });
        if (at < 0) { count = seen; if (!w.check(problem.empty() && count > 0, "error", [&] { return problem; })) { return; } continue; }
        bool const finite = std::isfinite(bad) && (dbl || std::abs(bad) < 1e38);
        if (!w.check(finite == problem.empty(), "invalid", [&] { return str("element ", at, " of ", count, " set to ", bad, ": ", problem.empty() ? "no error" : problem); })) { return; }
        w.count("models");
    }
    (void)probe;
}

    struct Elements {
        std::vector<std::tuple<idx_t, idx_t, cd>> operator()(cpb::SparseMatrixRC<float> const&) const { return {}; }
        std::vector<std::tuple<idx_t, idx_t, cd>> operator()(cpb::SparseMatrixRC<std::complex<float>> const&) const { return {}; }
        std::vector<std::tuple<idx_t, idx_t, cd>> operator()(cpb::SparseMatrixRC<double> const& p) const { return items(*p); }
        std::vector<std::tuple<idx_t, idx_t, cd>> operator()(cpb::SparseMatrixRC<cd> const& p) const { return items(*p); }
        template<class S> std::vector<std::tuple<idx_t, idx_t, cd>> items(cpb::SparseMatrixX<S> const& m) const {
            std::vector<std::tuple<idx_t, idx_t, cd>> r;
            for (idx_t i = 0; i < m.rows(); ++i) { for (auto n = m.outerIndexPtr()[i]; n < m.outerIndexPtr()[i + 1]; ++n) { r.emplace_back(i, m.innerIndexPtr()[n], cd(m.valuePtr()[n])); } }
            return r;
        }
    };

/// Many bonds: the modifier must see and change every one of them, wherever the internal buffer ends
void many(pbv::Worker& w, int rows, int cols, idx_t cells, bool cplx) {
    Spec s; s.vectors = {{1, 0, 0}};
    s.sub("A", {0, 0, 0}, MatrixXcd::Zero(rows, rows));
    if (rows != cols) { s.sub("B", {0.5f, 0, 0}, MatrixXcd::Zero(cols, cols)); }
    auto const energy = hop_energy(1, rows, cols, cplx);
    s.hop({rows == cols ? 1 : 0, 0, 0}, 0, rows == cols ? 0 : 1, "t", energy);
    cpb::Model m(make(s), cpb::Primitive(static_cast<int>(cells)));
    idx_t bad_calls = 0, seen = 0;
    m.add(cpb::HoppingModifier([&](cpb::ComplexArrayRef ref, cpb::CartesianArrayConstRef a, cpb::CartesianArrayConstRef b, cpb::string_view) {
        View const v(ref);
        if (a.size() != v.n || b.size() != v.n || v.rows != rows || v.cols != cols) { ++bad_calls; return; }
        for (idx_t k = 0; k < v.n; ++k) {
            auto const g = 1 + 0.5 * std::fmod(static_cast<double>(a.x()[k]) + b.x()[k] + 4e6, 97);
            for (idx_t i = 0; i < rows; ++i) { for (idx_t j = 0; j < cols; ++j) { v.set(v.at(i, j, k), v.get(v.at(i, j, k)) * g); } }
            ++seen;
        }
    }, false, true));
    auto const bonds = rows == cols ? cells - 1 : cells;
    auto const problem = thrown([&] { m.hamiltonian(); });
    if (!w.check(problem.empty() && bad_calls == 0, "error", [&] { return str(problem, " ", bad_calls, " wrong calls"); })) { return; }
    if (!w.check(seen == bonds, "many bonds", [&] { return str("the modifier was given ", seen, " of ", bonds, " bonds"); })) { return; }
    auto const& sys = *m.system();
    int size; auto const offset = orbital_offsets(sys, size);
    auto const have = cpb::var::apply_visitor(Elements(), m.hamiltonian().get_variant());
    // the site which owns a row, and the bond partner by position
    std::vector<int> owner(static_cast<size_t>(size)); for (size_t i = 0; i < offset.size(); ++i) { auto const end = i + 1 < offset.size() ? offset[i + 1] : size; for (int o = offset[i]; o < end; ++o) { owner[static_cast<size_t>(o)] = static_cast<int>(i); } }
    if (!w.check(static_cast<idx_t>(have.size()) == 2 * bonds * rows * cols, "many bonds", [&] { return str(have.size(), " elements, expected ", 2 * bonds * rows * cols); })) { return; }
    for (auto& h : have) {
        auto const i = std::get<0>(h), j = std::get<1>(h);
        auto const si = static_cast<size_t>(owner[static_cast<size_t>(i)]), sj = static_cast<size_t>(owner[static_cast<size_t>(j)]);
        auto const xi = sys.positions.x[static_cast<idx_t>(si)], xj = sys.positions.x[static_cast<idx_t>(sj)];
        auto const g = 1 + 0.5 * std::fmod(static_cast<double>(xi) + xj + 4e6, 97);
        bool const forward = xi < xj;
        auto const oi = i - offset[si], oj = j - offset[sj];
        auto const want = std::abs(xi - xj) > 1.1f ? cd(1e300) : forward ? energy(oi, oj) * g : std::conj(energy(oj, oi)) * g;
        if (std::abs(std::get<2>(h) - want) > 1e-9) { w.check(false, "many bonds", [&] { return str("element (", i, ",", j, ") is ", std::get<2>(h), ", expected ", want); }); return; }
    }
    w.count("checks", have.size()); w.count("models"); w.distinct(pbv::hash(w.current));
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is one system and one sequence of modifiers; distinct: with two or more modifiers, or with more bonds than the internal buffer";
    info.states = "models"; info.transitions = "checks"; info.traces = "models";
    info.assumptions = {"single precision results are compared within 2e-5 of the largest element, double precision within 1e-12 (2e-5 at a non-zero wave vector, whose phase the code computes in single precision)",
        "hopping modifiers are taken from a set which treats a bond and its reverse alike, so that the direction in which a bond is stored does not matter"};
    return pbv::run(argc, argv, "C07", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        std::vector<std::vector<int>> const op_lists = {{}, {zoo_remove_third}, {zoo_sites1, zoo_bonds}, {zoo_sites2, zoo_remove_third}, {zoo_shift, zoo_sites_none}};
        auto const n = static_cast<int>(letters().size());
        for (auto const& base : zoo_bases(deep)) {
            for (auto const& ops : op_lists) {
                auto const most = deep && ops.size() != 1 ? 4 : 3;
                std::vector<int> seq;
                std::function<void()> go = [&] {
                    if (w.next([&] { auto t = base.name; for (auto o : ops) { t += str(" [", zoo_op_name(o), "]"); } t += ":"; for (auto l : seq) { t += str(" <", letters()[static_cast<size_t>(l)].name, ">"); } return t; })) { run_case(w, base, ops, seq); }
                    if (static_cast<int>(seq.size()) == most) { return; }
                    for (int l = 0; l < n; ++l) { seq.push_back(l); go(); seq.pop_back(); }
                };
                go();
            }
            for (int onsite = 0; onsite <= 1; ++onsite) { for (double bad : {std::nan(""), double(INFINITY), -double(INFINITY), 1e39, 2.0}) { for (int dbl = 0; dbl <= 1; ++dbl) {
                if (base.spec.terms.empty() && !onsite) { continue; }
                if (w.next([&] { return str(base.name, ": a ", onsite ? "onsite" : "hopping", " modifier returns ", bad, dbl ? " in double" : ""); })) { invalid_values(w, base, onsite, bad, dbl); }
            } } }
        }
        struct Many { int rows, cols; idx_t cells; };
        std::vector<Many> big;
        for (int d = -1; d <= 2; ++d) { big.push_back({1, 1, 100001 + d}); big.push_back({2, 3, 16666 + d}); }
        big.push_back({1, 1, 200001}); big.push_back({1, 1, 200002}); big.push_back({2, 3, 33332}); big.push_back({2, 3, 33333}); big.push_back({2, 2, 50003});
        for (int o : {316, 317}) { big.push_back({o, o, 3}); }
        big.push_back({400, 300, 2});
        for (auto& b : big) { for (int c = 0; c <= 1; ++c) {
            if (w.next([&] { return str(b.cells, " cells of ", b.rows, "x", b.cols, " hoppings", c ? ", complex" : ""); })) { many(w, b.rows, b.cols, b.cells, c); }
        } }
    });
}
