// C05: a model equals a freshly built one -- every history of parameters, queries and rejected steps up to a length
#include "shapes.hpp"
using namespace gen;

namespace {

using State = Eigen::Ref<cpb::ArrayX<bool>>;

Spec lattice() {
    Spec s; s.vectors = {{1, 0, 0}, {0.25f, 1, 0}};
    s.sub("A", {0, 0, 0}, onsite_energy(0, 1, diagonal)); s.sub("B", {0.5f, 0.25f, 0}, onsite_energy(1, 2, full_real));
    s.hop({0, 0, 0}, 0, 1, "t", hop_energy(0, 1, 2, false)); s.hop({1, 0, 0}, 0, 0, "u", hop_energy(1, 1, 1, false)); s.hop({0, 1, 0}, 1, 1, "v", hop_energy(2, 2, 2, false));
    s.hop({0, 1, 0}, 0, 0, "u", hop_energy(1, 1, 1, false));
    return s;
}

cpb::Shape rect(float x, float y, Cartesian offset) { auto s = rectangle(-x, x, -y, y).shape; s.lattice_offset = offset; return s; }

void set_all(cpb::ComplexArrayRef e, std::function<void(double& re, double& im, idx_t k)> f) {
    using cpb::num::Tag;
    auto const n = static_cast<idx_t>(e.size());
    for (idx_t k = 0; k < n; ++k) {
        double re = 0, im = 0;
        switch (e.tag) {
            case Tag::f32: re = static_cast<float*>(e.data)[k]; break;
            case Tag::f64: re = static_cast<double*>(e.data)[k]; break;
            case Tag::cf32: re = static_cast<std::complex<float>*>(e.data)[k].real(); im = static_cast<std::complex<float>*>(e.data)[k].imag(); break;
            default: re = static_cast<cd*>(e.data)[k].real(); im = static_cast<cd*>(e.data)[k].imag();
        }
        f(re, im, k);
        bool const real = e.tag == Tag::f32 || e.tag == Tag::f64;
        if (real && im != 0) { throw cpb::ComplexOverride(); }
        switch (e.tag) {
            case Tag::f32: static_cast<float*>(e.data)[k] = static_cast<float>(re); break;
            case Tag::f64: static_cast<double*>(e.data)[k] = re; break;
            case Tag::cf32: static_cast<std::complex<float>*>(e.data)[k] = {static_cast<float>(re), static_cast<float>(im)}; break;
            default: static_cast<cd*>(e.data)[k] = {re, im};
        }
    }
}

enum Kind { other, structure, hamiltonian, clear_s, clear_h, clear_a };
struct Step { char const* name; Kind kind; std::function<void(cpb::Model&)> f; };

std::vector<Step> const& steps() {
    static std::vector<Step> const r = {
        {"primitive 2x2", other, [](cpb::Model& m) { m.add(cpb::Primitive(2, 2, 1)); }},
        {"primitive 3x1x2", other, [](cpb::Model& m) { m.add(cpb::Primitive(3, 1, 2)); }},          // rejected
        {"rectangle", other, [](cpb::Model& m) { m.add(rect(1.6f, 1.3f, {0, 0, 0})); }},
        {"rectangle, offset", other, [](cpb::Model& m) { m.add(rect(1.3f, 1.7f, {0.25f, 0.125f, 0})); }},
        {"rectangle, bad offset", other, [](cpb::Model& m) { m.add(rect(2.3f, 0.9f, {1.5f, 0, 0})); }},   // rejected
        {"symmetry 2,-", other, [](cpb::Model& m) { m.add(cpb::TranslationalSymmetry(2)); }},
        {"no symmetry", other, [](cpb::Model& m) { m.add(cpb::TranslationalSymmetry(-1, -1)); }},
        {"lead -1", other, [](cpb::Model& m) { m.attach_lead(-1, line(Cartesian(0, -0.9f, 0), Cartesian(0, 0.9f, 0)).shape); }},
        {"lead +2", other, [](cpb::Model& m) { m.attach_lead(2, line(Cartesian(-0.6f, 0, 0), Cartesian(0.9f, 0, 0)).shape); }},
        {"lead 3", other, [](cpb::Model& m) { m.attach_lead(3, line(Cartesian(-1, 0, 0), Cartesian(1, 0, 0)).shape); }},        // rejected
        {"remove right", structure, [](cpb::Model& m) { m.add(cpb::SiteStateModifier([](State s, cpb::CartesianArrayConstRef p, cpb::string_view) { for (idx_t i = 0; i < s.size(); ++i) { if (p.x()[i] > 1.1f) { s[i] = false; } } })); }},
        {"shift B", structure, [](cpb::Model& m) { m.add(cpb::PositionModifier([](cpb::CartesianArrayRef p, cpb::string_view f) { if (f == "B") { for (idx_t i = 0; i < p.size(); ++i) { p.x()[i] += 0.125f; } } })); }},
        {"add sites N", structure, [](cpb::Model& m) { m.add(cpb::SiteGenerator("N", onsite_energy(4, 2, full_complex), [](cpb::System const&) { cpb::CartesianArray a(2); a[0] = Cartesian(0, 0, 1); a[1] = Cartesian(1, 0, 1); return a; })); }},
        {"add sites A", structure, [](cpb::Model& m) { m.add(cpb::SiteGenerator("A", onsite_energy(5, 1, diagonal), [](cpb::System const&) { cpb::CartesianArray a(1); a[0] = Cartesian(0, 0, 2); return a; })); }},   // rejected
        {"add bonds n", structure, [](cpb::Model& m) { m.add(cpb::HoppingGenerator("n", hop_energy(5, 1, 1, false), [](cpb::System const& s) {
            auto const n = static_cast<int>(std::min<idx_t>(s.compressed_sublattices.decompressed().size(), 3)); (void)n;
            cpb::HoppingGenerator::Result r{cpb::ArrayXi(1), cpb::ArrayXi(1)}; r.from[0] = 0; r.to[0] = 1; return r; })); }},
        {"add bonds t", structure, [](cpb::Model& m) { m.add(cpb::HoppingGenerator("t", hop_energy(5, 1, 1, true), [](cpb::System const&) { cpb::HoppingGenerator::Result r{cpb::ArrayXi(1), cpb::ArrayXi(1)}; r.from[0] = 0; r.to[0] = 1; return r; })); }},   // rejected
        {"onsite += x", hamiltonian, [](cpb::Model& m) { m.add(cpb::OnsiteModifier([](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p, cpb::string_view) { auto const n = p.size(); set_all(e, [&](double& re, double&, idx_t k) { re += 0.5 * p.x()[k % n] + 1; }); })); }},
        {"onsite complex where x > 1", hamiltonian, [](cpb::Model& m) { m.add(cpb::OnsiteModifier([](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p, cpb::string_view) { auto const n = p.size(); set_all(e, [&](double&, double& im, idx_t k) { if (p.x()[k % n] > 1 && k < n) { im -= 0.5; } }); })); }},
        {"hop *= 2 (double)", hamiltonian, [](cpb::Model& m) { m.add(cpb::HoppingModifier([](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef, cpb::CartesianArrayConstRef, cpb::string_view) { set_all(e, [&](double& re, double& im, idx_t) { re *= 2; im *= 2; }); }, false, true)); }},
        {"hop phase where y > 1.2", hamiltonian, [](cpb::Model& m) { m.add(cpb::HoppingModifier([](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef a, cpb::CartesianArrayConstRef b, cpb::string_view) { auto const n = a.size(); set_all(e, [&](double& re, double& im, idx_t k) { if (a.y()[k % n] + b.y()[k % n] > 2.4f) { im += 0.25 * re; } }); })); }},
        {"hop NaN where x < -1.5", hamiltonian, [](cpb::Model& m) { m.add(cpb::HoppingModifier([](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef a, cpb::CartesianArrayConstRef b, cpb::string_view) { auto const n = a.size(); set_all(e, [&](double& re, double&, idx_t k) { if (a.x()[k % n] + b.x()[k % n] < -3) { re = NAN; } }); })); }},
        {"k = (16384,0)", other, [](cpb::Model& m) { m.set_wave_vector({16384, 0, 0}); }},
        {"k = (16384.0625,0)", other, [](cpb::Model& m) { m.set_wave_vector({16384.0625f, 0, 0}); }},
        {"k = 0", other, [](cpb::Model& m) { m.set_wave_vector({0, 0, 0}); }},
        {"clear structure modifiers", clear_s, [](cpb::Model& m) { m.clear_structure_modifiers(); }},
        {"clear hamiltonian modifiers", clear_h, [](cpb::Model& m) { m.clear_hamiltonian_modifiers(); }},
        {"clear all modifiers", clear_a, [](cpb::Model& m) { m.clear_all_modifiers(); }},
    };
    return r;
}

/// Everything which a system says, exactly
std::string print(cpb::System const& s) {
    std::ostringstream o; o.precision(9);
    o << s.num_sites() << " sites:";
    for (idx_t i = 0; i < s.num_sites(); ++i) { o << " " << s.positions.x[i] << "," << s.positions.y[i] << "," << s.positions.z[i]; }
    o << "; sublattices:";
    for (auto const& c : s.compressed_sublattices) { o << " " << s.site_registry.name(c.id()) << "*" << c.num_sites() << "*" << c.num_orbitals(); }
    auto const bonds = [&](cpb::HoppingBlocks const& h) { for (auto const& b : h) { o << " " << s.hopping_registry.name(b.family_id()) << ":"; for (auto const& c : b.coordinates()) { o << c.row << "-" << c.col << ","; } } };
    o << "; bonds:"; bonds(s.hopping_blocks);
    for (auto const& b : s.boundaries) { o << "; boundary " << b.shift.transpose() << ":"; bonds(b.hopping_blocks); }
    o << "; families:"; for (auto& n : s.site_registry.get_names()) { o << " " << n; } for (auto& n : s.hopping_registry.get_names()) { o << " " << n; }
    for (auto& e : s.site_registry.get_energies()) { o << text(e); } for (auto& e : s.hopping_registry.get_energies()) { o << text(e); }
    return o.str();
}
std::string print(cpb::Hamiltonian const& h) {
    auto const d = ref::dense(h);
    std::ostringstream o; o.precision(17); o << (d.is_complex ? "complex " : "real ") << (d.is_double ? "double " : "single ") << d.m.rows() << (d.valid ? "" : d.problem) << ":";
    for (idx_t i = 0; i < d.m.rows(); ++i) { for (idx_t j = 0; j < d.m.cols(); ++j) { if (d.m(i, j) != cd(0)) { o << " " << i << "," << j << "=" << d.m(i, j).real() << "," << d.m(i, j).imag(); } } }
    return o.str();
}
std::string print(cpb::Lead const& l) {
    std::ostringstream o; o << "lead " << l.spec().axis << " " << l.spec().sign << " indices";
    for (auto i : l.indices()) { o << " " << i; }
    o << " " << print(l.system()) << " h0 " << print(l.h0()) << " h1 " << print(l.h1());
    return o.str();
}

template<class F> std::string ask(F f) { std::string r; auto const p = thrown([&] { r = f(); }); return p.empty() ? r : p; }
std::string ask_system(cpb::Model& m) { return ask([&] { return print(*m.system()); }); }
std::string ask_hamiltonian(cpb::Model& m) { return ask([&] { return print(m.hamiltonian()); }); }
std::string ask_leads(cpb::Model& m) {
    return ask([&] { auto const n = m.leads().size(); auto r = str(n, " leads"); for (int i = 0; i < n; ++i) { r += "; " + print(m.lead(static_cast<size_t>(i))); } return r; });
}
std::string ask_flags(cpb::Model& m) {   // after the results were made
    auto const o = m.get_lattice().get_offset();
    auto const v = m.get_shape().vertices.size();
    return str("double ", m.is_double(), " complex ", m.is_complex(), " multi ", m.is_multiorbital(), " offset ", o.x(), ",", o.y(), " symmetry ", static_cast<bool>(m.get_symmetry()),
               " shape ", v, " ", v ? m.get_shape().vertices[0].x() : 0, " primitive ", m.get_primitive().size.transpose(),
               " families ", m.get_site_registry().get_names().size(), " ", m.get_hopping_registry().get_names().size());
}

struct Fresh { std::string system, hamiltonian, leads, flags; };
struct Result { std::string what, text; std::function<std::string()> again; };

bool run_case(pbv::Worker& w, std::vector<int> const& seq, std::vector<int> const& queries) {
    static auto const real_lattice = make(lattice());
    static std::map<std::vector<int>, Fresh> memo;
    cpb::Model m(real_lattice);
    std::vector<int> accepted;
    auto const fresh = [&]() -> Fresh const& {
        auto it = memo.find(accepted);
        if (it == memo.end()) {
            if (memo.size() > 20000) { memo.clear(); }
            auto const built = [&] { auto f = std::unique_ptr<cpb::Model>(new cpb::Model(real_lattice)); for (int a : accepted) { auto const p = thrown([&] { steps()[static_cast<size_t>(a)].f(*f); }); w.check(p.empty(), "rejected by a fresh model", [&] { return str(steps()[static_cast<size_t>(a)].name, ": ", p); }); } return f; };
            Fresh x;
            { auto f = built(); x.system = ask_system(*f); }          // each from a model of its own
            { auto f = built(); x.hamiltonian = ask_hamiltonian(*f); }
            { auto f = built(); x.leads = ask_leads(*f); x.flags = ask_flags(*f); }
            it = memo.emplace(accepted, x).first;
        }
        return it->second;
    };
    auto const same = [&](char const* what, std::string const& got, std::string const& want) {
        return w.check(got == want, what, [&] {
            size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) { ++i; }
            auto const cut = [&](std::string const& s) { return s.substr(0, std::min<size_t>(60, s.size())) + " ... " + (i > 40 ? s.substr(std::min(s.size(), i - 40), 160) : s.substr(0, 160)); };
            return str(what, " differs from a fresh model's: ", cut(got), "  INSTEAD OF  ", cut(want)); });
    };
    std::vector<Result> kept;
    auto const query = [&](int q) {
        auto const& f = fresh();
        if (q == 1 || q == 4) {
            if (!same("system", ask_system(m), f.system)) { return false; }
            if (f.system.compare(0, 9, "exception") != 0) { auto s = m.system(); kept.push_back({"system", f.system, [s] { return print(*s); }}); }
        }
        if (q == 2 || q == 4) {
            if (!same("hamiltonian", ask_hamiltonian(m), f.hamiltonian)) { return false; }
            if (f.hamiltonian.compare(0, 9, "exception") != 0) { auto h = m.hamiltonian(); kept.push_back({"hamiltonian", f.hamiltonian, [h] { return print(h); }}); }
        }
        if (q == 3 || q == 4) {
            if (!same("leads", ask_leads(m), f.leads)) { return false; }
            if (f.leads.compare(0, 9, "exception") != 0 && m.leads().size() > 0) { auto l = m.lead(0); auto const t = print(l); kept.push_back({"lead", t, [l] { return print(l); }}); }
        }
        return true;
    };
    for (size_t i = 0; i < seq.size(); ++i) {
        auto const& s = steps()[static_cast<size_t>(seq[i])];
        auto const problem = thrown([&] { s.f(m); });
        if (problem.empty()) {
            if (s.kind == other || s.kind == structure || s.kind == hamiltonian) {
                // the fresh model gets only the last one of those which replace each other
                for (char const* group : {"k = ", "primitive ", "symmetry "}) {
                    auto const in = [&](int a) { std::string const name = steps()[static_cast<size_t>(a)].name; return name.find(group) == 0 || (group[0] == 's' && name == "no symmetry"); };
                    if (in(seq[i])) { accepted.erase(std::remove_if(accepted.begin(), accepted.end(), in), accepted.end()); }
                }
                accepted.push_back(seq[i]);
            }
            else {
                accepted.erase(std::remove_if(accepted.begin(), accepted.end(), [&](int a) {
                    auto const k = steps()[static_cast<size_t>(a)].kind;
                    return (k == structure && s.kind != clear_h) || (k == hamiltonian && s.kind != clear_s); }), accepted.end());
            }
        } else {
            // a fresh model rejects it as well
            auto again = [&] { cpb::Model f(real_lattice); for (int a : accepted) { steps()[static_cast<size_t>(a)].f(f); } s.f(f); };
            auto const expected = thrown(again);
            if (!w.check(problem == expected, "rejection", [&] { return str(s.name, " is rejected (", problem, "), but by a fresh model: ", expected); })) { return false; }
            w.count("rejected steps");
        }
        if (i < queries.size() && !query(queries[i])) { return false; }
    }
    if (!query(4)) { return false; }
    if (!query(4)) { return false; }
    if (!same("flags", ask_flags(m), fresh().flags)) { return false; }
    for (auto& k : kept) { if (!w.check(k.again() == k.text, "changed", [&] { return "an obtained result changed: " + k.what; })) { return false; } }
    w.count("models"); w.count("queries", kept.size());
    w.distinct(pbv::hash(fresh().leads + fresh().hamiltonian + fresh().flags));
    return true;
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is one history: steps (accepted or rejected parameters, wave vectors, clears) with queries in between; distinct: different final results";
    info.states = "models"; info.transitions = "checks"; info.traces = "models";
    info.assumptions = {"a fresh model is one built by the same code with the accepted parameters and asked for one result only; C01-C08 decide whether that is right"};
    return pbv::run(argc, argv, "C05", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        auto const n = static_cast<int>(steps().size());
        char const* const names[] = {"", " ?system", " ?hamiltonian", " ?leads", " ?all"};
        auto const at = [](std::string const& name) { for (size_t i = 0; i < steps().size(); ++i) { if (steps()[i].name == name) { return static_cast<int>(i); } } std::exit(3); };
        std::vector<std::vector<int>> const starts = {{}, {at("rectangle")}, {at("rectangle"), at("lead -1"), at("lead +2")}, {at("primitive 2x2"), at("symmetry 2,-")}};
        std::vector<int> seq, queries;
        size_t fixed = 0;
        std::function<void(int, std::vector<int> const&)> go = [&](int length, std::vector<int> const& choices) {
            if (static_cast<int>(seq.size() - fixed) == length) {
                if (w.next([&] { std::string t; for (size_t i = 0; i < seq.size(); ++i) { t += str(i ? " " : "", "[", steps()[static_cast<size_t>(seq[i])].name, "]", i < queries.size() ? names[queries[i]] : ""); } return t; })) { run_case(w, seq, queries); }
                return;
            }
            for (int s = 0; s < n; ++s) {
                seq.push_back(s);
                if (static_cast<int>(seq.size() - fixed) == length) { go(length, choices); }
                else { for (int q : choices) { queries.push_back(q); go(length, choices); queries.pop_back(); } }
                seq.pop_back();
            }
        };
        for (auto const& start : starts) {
            for (int q : {0, 1, 2, 3, 4}) {   // what is asked after the start
                if (start.empty() && q) { continue; }
                seq = start; fixed = seq.size(); queries.assign(fixed, 0); if (fixed) { queries.back() = q; }
                for (int length = 0; length <= 2; ++length) { go(length, {0, 1, 2, 3, 4}); }
                if (q != 4 && !start.empty() && !deep) { continue; }
                go(3, deep && start.empty() ? std::vector<int>{0, 1, 2, 3, 4} : deep || start.empty() ? std::vector<int>{0, 4} : std::vector<int>{4});
                if (deep && start.empty()) { go(4, {4}); }
            }
        }
    });
}
