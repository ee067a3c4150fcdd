// C09: lattice definitions -- every sequence of definition calls up to a depth, against a plain list of what was accepted
#include "ref.hpp"

namespace {
using namespace ref;
using pbv::str;

struct RSub { std::string name; Cartesian pos; MatrixXcd energy; int original; };
struct RTerm { Index3D rel; int from, to; int family; };
struct RFamily { std::string name; MatrixXcd energy; };   // name is empty if it is anonymous: any unused name is fine
struct Definition {
    std::vector<RSub> subs; std::vector<RFamily> families; std::vector<RTerm> terms;
    Cartesian offset = {0, 0, 0}; int min_neighbors = 1;
    int sub(std::string const& n) const { for (size_t i = 0; i < subs.size(); ++i) { if (subs[i].name == n) { return static_cast<int>(i); } } return -1; }
};

enum Kind { add_sub, alias, reg, hop, anonymous, offset, offset_copy, neighbors, neighbors_copy };
struct Op {
    Kind kind; std::string name, other, family; Cartesian pos = {0, 0, 0}; MatrixXcd energy; Index3D rel = {0, 0, 0}; int n = 0, form = 0;   // form 0 matrix, 1 vector, 2 scalar
    std::string text() const {
        switch (kind) {
            case add_sub: return str("sublattice '", name, "' ", form == 1 ? "vector " : form == 2 ? "scalar " : "", ref::text(energy));
            case alias: return str("alias '", name, "' of '", other, "'");
            case reg: return str("register '", name, "' ", ref::text(energy));
            case hop: return str("hop ", name, "->", other, ref::text(rel), " '", family, "'");
            case anonymous: return str("hop ", name, "->", other, ref::text(rel), " ", ref::text(energy));
            case offset: return str("offset ", ref::text(pos));
            case offset_copy: return str("with_offset ", ref::text(pos));
            case neighbors: return str("min_neighbors ", n);
            default: return str("with_min_neighbors ", n);
        }
    }
};
MatrixXcd M(std::initializer_list<std::initializer_list<cd>> rows) {
    MatrixXcd m(rows.size(), rows.size() ? rows.begin()->size() : 0);
    int i = 0; for (auto& r : rows) { int j = 0; for (auto& v : r) { m(i, j++) = v; } ++i; } return m;
}
MatrixXcd S(cd v) { return M({{v}}); }

/// What the definition becomes; false if the step is invalid
bool step(Definition& d, Op const& op) {
    switch (op.kind) {
        case add_sub: {
            auto const& e = op.energy;
            if (op.name.empty() || d.sub(op.name) >= 0 || e.rows() != e.cols() || e.rows() == 0) { return false; }
            for (idx_t i = 0; i < e.rows(); ++i) { if (e(i, i).imag() != 0) { return false; } }
            bool upper = true, herm = true;
            for (idx_t i = 0; i < e.rows(); ++i) { for (idx_t j = 0; j < i; ++j) { upper = upper && e(i, j) == 0.0; herm = herm && e(i, j) == std::conj(e(j, i)); } }
            if (!upper && !herm) { return false; }
            d.subs.push_back({op.name, op.pos, hermitian(e), static_cast<int>(d.subs.size())}); return true;
        }
        case alias: {
            auto const o = d.sub(op.other);
            if (o < 0 || op.name.empty() || d.sub(op.name) >= 0) { return false; }
            d.subs.push_back({op.name, op.pos, d.subs[o].energy, d.subs[o].original}); return true;
        }
        case reg: {
            if (op.name.empty() || op.energy.size() == 0) { return false; }
            for (auto& f : d.families) { if (f.name == op.name) { return false; } }
            d.families.push_back({op.name, op.energy}); return true;
        }
        case hop: case anonymous: {
            auto const a = d.sub(op.name), b = d.sub(op.other);
            if (a < 0 || b < 0 || (a == b && op.rel == Index3D(0, 0, 0))) { return false; }
            int family = -1;
            for (size_t i = 0; i < d.families.size(); ++i) {
                auto const& f = d.families[i];
                if (op.kind == hop ? f.name == op.family : f.energy.rows() == op.energy.rows() && f.energy.cols() == op.energy.cols() && f.energy == op.energy) { family = static_cast<int>(i); break; }
            }
            if (family < 0 && op.kind == hop) { return false; }
            auto const& e = op.kind == hop ? d.families[family].energy : op.energy;
            if (e.rows() == 0 || e.rows() != d.subs[a].energy.rows() || e.cols() != d.subs[b].energy.rows()) { return false; }
            for (auto& t : d.terms) { if ((t.from == a && t.to == b && t.rel == op.rel) || (t.from == b && t.to == a && Index3D(-t.rel) == op.rel)) { return false; } }
            if (family < 0) { family = static_cast<int>(d.families.size()); d.families.push_back({"", op.energy}); }
            d.terms.push_back({op.rel, a, b, family}); return true;
        }
        case offset: case offset_copy: {
            if (std::abs(op.n) > 55) { return false; }
            d.offset = op.pos; return true;
        }
        default: d.min_neighbors = op.n; return true;
    }
}

/// What the definition leaves open: the name of an anonymous family, and which of the families with equal energy is used
void settle(cpb::Lattice const& l, Definition& d, Op const& op) {
    if (op.kind != anonymous) { return; }
    for (auto& p : l.get_hoppings()) {
        auto const id = static_cast<size_t>(p.second.family_id.value());
        if (id >= d.families.size()) { continue; }
        if (d.families[id].name.empty()) { d.families[id].name = p.first; }
        auto& t = d.terms.back(); auto const& e = d.families[static_cast<size_t>(t.family)].energy; auto const& f = d.families[id].energy;
        if (e.rows() != f.rows() || e.cols() != f.cols() || e != f) { continue; }
        for (auto& x : p.second.terms) { if (x.from.value() == t.from && x.to.value() == t.to && x.relative_index == t.rel) { t.family = static_cast<int>(id); } }
    }
}

void apply(cpb::Lattice& l, Op const& op) {
    switch (op.kind) {
        case add_sub:
            if (op.form == 2) { l.add_sublattice(op.name, op.pos, op.energy(0, 0).real()); }
            else if (op.form == 1) { l.add_sublattice(op.name, op.pos, cpb::VectorXd(op.energy.diagonal().real())); }
            else { l.add_sublattice(op.name, op.pos, op.energy); }
            break;
        case alias: l.add_alias(op.name, op.other, op.pos); break;
        case reg: if (op.energy.size() == 1) { l.register_hopping_energy(op.name, op.energy(0, 0)); } else { l.register_hopping_energy(op.name, op.energy); } break;
        case hop: l.add_hopping(op.rel, op.name, op.other, op.family); break;
        case anonymous: if (op.energy.size() == 1) { l.add_hopping(op.rel, op.name, op.other, op.energy(0, 0)); } else { l.add_hopping(op.rel, op.name, op.other, op.energy); } break;
        case offset: l.set_offset(op.pos); break;
        case offset_copy: l = l.with_offset(op.pos); break;
        case neighbors: l.set_min_neighbors(op.n); break;
        case neighbors_copy: l = l.with_min_neighbors(op.n); break;
    }
}
bool same(MatrixXcd const& a, MatrixXcd const& b) { return a.rows() == b.rows() && a.cols() == b.cols() && a == b; }

/// Compare everything which can be asked about the lattice
template<class Text>
bool compare(pbv::Worker& w, cpb::Lattice const& l, Definition const& d, Text&& context) {
    auto const fail = [&](char const* key, std::string const& what) { return w.check(false, key, [&] { return context() + what; }); };
    auto const nsub = d.subs.size(), nfam = d.families.size();
    auto const& subs = l.get_sublattices(); auto const& hops = l.get_hoppings();
    if (subs.size() != nsub || static_cast<size_t>(l.nsub()) != nsub) { return fail("sublattices", str(subs.size(), " sublattices, expected ", nsub)); }
    for (size_t i = 0; i < nsub; ++i) {
        auto const it = subs.find(d.subs[i].name);
        if (it == subs.end()) { return fail("sublattices", "missing '" + d.subs[i].name + "'"); }
        auto const& s = it->second;
        if (s.unique_id.value() != i || s.alias_id.value() != d.subs[i].original) { return fail("sublattice ids", str("'", d.subs[i].name, "' has ids ", s.unique_id.value(), ", ", s.alias_id.value(), " expected ", i, ", ", d.subs[i].original)); }
        if (!same(s.energy, d.subs[i].energy) || s.position != d.subs[i].pos) { return fail("sublattices", "wrong energy or position of '" + d.subs[i].name + "': " + text(s.energy)); }
    }
    if (hops.size() != nfam || static_cast<size_t>(l.nhop()) != nfam) { return fail("hoppings", str(hops.size(), " hopping families, expected ", nfam)); }
    std::vector<std::string> name(nfam);
    for (auto& p : hops) {
        auto const id = static_cast<size_t>(p.second.family_id.value());
        if (id >= nfam || !name[id].empty() || p.first.empty()) { return fail("hopping ids", str("'", p.first, "' has id ", id)); }
        name[id] = p.first;
        auto const& f = d.families[id];
        if ((!f.name.empty() && f.name != p.first) || !same(f.energy, p.second.energy)) { return fail("hoppings", str("family ", id, " is '", p.first, "' ", text(p.second.energy), ", expected '", f.name, "' ", text(f.energy))); }
        size_t n = 0;
        for (auto& t : d.terms) {
            auto const wanted = static_cast<size_t>(t.family) == id;
            if (!wanted) { continue; }
            ++n;
            auto const has = std::count_if(p.second.terms.begin(), p.second.terms.end(), [&](cpb::Lattice::HoppingTerm const& x) { return x.relative_index == t.rel && x.from.value() == t.from && x.to.value() == t.to; });
            if (has != 1) { return fail("terms", str("hopping ", t.from, "->", t.to, text(t.rel), " is in '", p.first, "' ", has, " times")); }
        }
        if (n != p.second.terms.size()) { return fail("terms", str("'", p.first, "' has ", p.second.terms.size(), " terms, expected ", n)); }
    }
    if (l.get_offset() != d.offset || l.get_min_neighbors() != d.min_neighbors) { return fail("offset", "wrong offset or min_neighbors"); }
    // derived
    int most = 0; bool diagonal = false, onsite = false, multi_s = false, multi_h = false, cplx_s = false, cplx_h = false, nonzero_h = false;
    for (size_t i = 0; i < nsub; ++i) {
        auto const& e = d.subs[i].energy;
        auto n = static_cast<int>(e.rows()) - 1;
        for (auto& t : d.terms) { if (t.from == static_cast<int>(i)) { n += static_cast<int>(d.subs[t.to].energy.rows()); } if (t.to == static_cast<int>(i)) { n += static_cast<int>(d.subs[t.from].energy.rows()); } }
        most = std::max(most, n);
        diagonal |= e.diagonal().cwiseAbs().maxCoeff() > 0; onsite |= e.cwiseAbs().maxCoeff() > 0; cplx_s |= e.imag().cwiseAbs().maxCoeff() > 0; multi_s |= e.rows() > 1;
    }
    for (auto& f : d.families) { cplx_h |= f.energy.imag().cwiseAbs().maxCoeff() > 0; multi_h |= f.energy.size() > 1; nonzero_h |= f.energy.cwiseAbs().maxCoeff() > 0; }
    if (l.max_hoppings() != most) { return fail("max hoppings", str(l.max_hoppings(), ", expected ", most)); }
    if (l.has_diagonal_terms() != diagonal || l.has_onsite_energy() != onsite) { return fail("onsite flags", str(l.has_diagonal_terms(), l.has_onsite_energy(), " expected ", diagonal, onsite)); }
    auto const sr = l.site_registry(); auto const hr = l.hopping_registry();
    if (sr.size() != static_cast<idx_t>(nsub) || hr.size() != static_cast<idx_t>(nfam)) { return fail("registry", "wrong size"); }
    if (sr.has_nonzero_energy() != onsite || sr.any_complex_terms() != cplx_s || sr.has_multiple_orbitals() != multi_s
        || hr.has_nonzero_energy() != nonzero_h || hr.any_complex_terms() != cplx_h || hr.has_multiple_orbitals() != multi_h) { return fail("registry flags", "wrong"); }
    auto const sm = sr.name_map(); auto const hm = hr.name_map();
    if (sm.size() != nsub || hm.size() != nfam) { return fail("registry", "wrong size of the name map"); }
    for (size_t i = 0; i < nsub; ++i) {
        auto const id = cpb::SiteID(i);
        if (std::string(sr.name(id)) != d.subs[i].name || !same(sr.energy(id), d.subs[i].energy) || sr.id(d.subs[i].name).value() != i || sm.at(d.subs[i].name) != static_cast<int>(i)) { return fail("registry", "site '" + d.subs[i].name + "'"); }
    }
    for (size_t i = 0; i < nfam; ++i) {
        auto const id = cpb::HopID(i);
        if (std::string(hr.name(id)) != name[i] || !same(hr.energy(id), d.families[i].energy) || hr.id(name[i]).value() != i || hm.at(name[i]) != static_cast<int>(i)) { return fail("registry", "hopping '" + name[i] + "'"); }
    }
    if (thrown([&] { sr.id("nobody"); }).empty() || thrown([&] { hr.id("nobody"); }).empty() || thrown([&] { sr.name(cpb::SiteID(nsub)); }).empty() || thrown([&] { hr.energy(cpb::HopID(nfam)); }).empty()) { return fail("registry", "an unknown name or id was accepted"); }
    auto const cell = l.optimized_unit_cell();
    std::vector<int> order(nsub); for (size_t i = 0; i < nsub; ++i) { order[i] = static_cast<int>(i); }
    std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return std::make_pair(d.subs[a].energy.rows(), d.subs[a].original) < std::make_pair(d.subs[b].energy.rows(), d.subs[b].original); });
    if (static_cast<size_t>(cell.end() - cell.begin()) != nsub) { return fail("unit cell", "wrong number of sites"); }
    size_t halves = 0;
    for (size_t k = 0; k < nsub; ++k) {
        auto const i = static_cast<size_t>(order[k]); auto const& s = cell[k];
        if (s.unique_id.value() != static_cast<int>(i) || s.alias_id.value() != d.subs[i].original || s.norb != d.subs[i].energy.rows() || s.position != d.subs[i].pos) { return fail("unit cell", str("entry ", k, " is not '", d.subs[i].name, "'")); }
        halves += s.hoppings.size();
        for (auto& t : d.terms) {
            for (int conj = 0; conj < 2; ++conj) {
                auto const here = conj ? t.to : t.from, there = conj ? t.from : t.to;
                if (here != static_cast<int>(i)) { continue; }
                Index3D const rel = conj ? Index3D(-t.rel) : t.rel;
                auto const has = std::count_if(s.hoppings.begin(), s.hoppings.end(), [&](cpb::OptimizedUnitCell::Hopping const& h) {
                    return h.relative_index == rel && h.to_sub_idx >= 0 && static_cast<size_t>(h.to_sub_idx) < nsub && order[static_cast<size_t>(h.to_sub_idx)] == there && h.family_id.value() == t.family && h.is_conjugate == (conj == 1); });
                if (has != 1) { return fail("unit cell", str("hopping ", here, "->", there, text(rel), " is listed ", has, " times")); }
            }
        }
    }
    if (halves != 2 * d.terms.size()) { return fail("unit cell", "wrong number of hoppings"); }
    // positions
    Index3D const at(l.ndim() > 0 ? 2 : 0, l.ndim() > 1 ? -1 : 0, l.ndim() > 2 ? 1 : 0);
    Cartesian p = d.offset;
    for (int i = 0; i < l.ndim(); ++i) { p += static_cast<float>(at[i]) * l.vector(static_cast<size_t>(i)); }
    if ((l.calc_position(at) - p).norm() > 1e-5f) { return fail("positions", "of a cell"); }
    for (auto& s : d.subs) { if ((l.calc_position(at, s.name) - p - s.pos).norm() > 1e-5f) { return fail("positions", "of '" + s.name + "'"); } }
    if (thrown([&] { l.calc_position(at, "nobody"); }).empty()) { return fail("positions", "of an unknown sublattice"); }
    w.count("checks");
    return true;
}

bool whole(pbv::Worker& w, cpb::Lattice const& l, Definition const& d, std::function<std::string()> const& context) {
    if (!compare(w, l, d, context)) { return false; }
    // as it is stored and restored
    auto r = cpb::Lattice(l.get_vectors(), l.get_sublattices(), l.get_hoppings());
    r.set_offset(l.get_offset()); r.set_min_neighbors(l.get_min_neighbors());
    return compare(w, r, d, [&] { return "restored, " + context(); });
}

struct Search {
    pbv::Worker& w; std::vector<Op> const& ops; std::vector<std::string> path; std::string start;
    std::string context(Op const& op) const { std::string t = start; for (auto& p : path) { t += p + "; "; } return t + op.text() + ": "; }
    void run(cpb::Lattice const& l, Definition const& d, int depth) {
        for (auto& op : ops) { if (!one(l, d, op, depth)) { return; } }
    }
    bool one(cpb::Lattice const& l, Definition const& d, Op const& op, int depth) {
        auto nl = l; auto nd = d;
        auto const valid = step(nd, op);
        if (!valid) { nd = d; }
        auto const problem = thrown([&] { apply(nl, op); });
        if (valid && problem.empty()) { settle(nl, nd, op); }
        w.count(valid ? "accepted" : "rejected");
        if (!w.check(problem.empty() == valid, valid ? "rejected a valid step" : "accepted an invalid step", [&] { return context(op) + (valid ? problem : "should be rejected"); })) { return false; }
        if (valid ? !whole(w, nl, nd, [&] { return context(op); }) : !compare(w, nl, nd, [&] { return context(op) + "(rejected) "; })) { return false; }
        if (valid && !compare(w, l, d, [&] { return context(op) + "changed the lattice it was copied from: "; })) { return false; }
        if (!valid) { return true; }
        w.distinct(pbv::hash(context(op)));
        if (depth > 1) { path.push_back(op.text()); run(nl, nd, depth - 1); path.pop_back(); }
        return true;
    }
};

std::vector<Op> alphabet(int ndim, bool small) {
    std::vector<Op> r;
    auto const sub = [&](std::string n, MatrixXcd e, int form = 0) { Op o{add_sub, n}; o.energy = e; o.form = form; o.pos = Cartesian(0.25f, 0.5f * static_cast<float>(n.size()), n == "B" ? 1.f : 0.f); r.push_back(o); };
    auto const al = [&](std::string n, std::string of) { Op o{alias, n, of}; o.pos = Cartesian(-0.5f, 0.125f, n == "X" ? 0.f : 2.f); r.push_back(o); };
    auto const re = [&](std::string n, MatrixXcd e) { Op o{reg, n}; o.energy = e; r.push_back(o); };
    cd const i(0, 1);
    sub("A", S(0), 2); sub("A", M({{-1, 2. + i}, {0, 3}})); sub("B", S(0.5), 2); sub("B", M({{1, 0}, {0, 0}}), 1); sub("C", M({{0, 0.5 * i}, {-0.5 * i, 0}}));
    sub("", S(0), 2); sub("A", M({{1, 2}})); sub("C", S(1. + i)); sub("C", MatrixXcd(0, 0)); sub("C", M({{1, 0}, {2, 1}})); sub("C", M({{1, i}, {i, 1}}));
    al("X", "A"); al("Y", "A"); al("Y", "X"); al("X", "B"); al("X", "nobody"); al("A", "A"); al("", "A"); al("B", "A");
    re("t", S(-1)); re("t", S(2)); re("s", S(-1)); re("u", M({{1, 2}})); re("v", M({{1}, {i}})); re("", S(1)); re("w", MatrixXcd(0, 0)); re("m", M({{1, i}, {0, 2}})); re("__anonymous__1", S(4));
    for (int k : {0, 45, 50, 60, -50, -60}) {
        Op o{offset}; o.pos = Cartesian(static_cast<float>(k) / 100.f, 0, 0); o.n = k; r.push_back(o);
        if (k >= 50) { o.kind = offset_copy; r.push_back(o); }
    }
    for (int n : {0, 3}) { Op o{neighbors}; o.n = n; r.push_back(o); o.kind = neighbors_copy; r.push_back(o); }
    std::vector<Index3D> rels = {{0, 0, 0}, {1, 0, 0}, {-1, 0, 0}};
    if (ndim > 1) { rels.push_back({1, -1, 0}); }
    if (ndim > 2) { rels.push_back({0, 0, 1}); }
    if (small) { rels = {{0, 0, 0}, {-1, 0, 0}}; if (ndim > 1) { rels.push_back({0, 1, 0}); } }
    std::vector<std::pair<std::string, std::string>> const pairs = {{"A", "A"}, {"A", "B"}, {"B", "A"}, {"B", "B"}, {"A", "X"}, {"X", "A"}, {"X", "X"}, {"B", "X"}, {"A", "nobody"}, {"nobody", "A"}};
    for (auto& rel : rels) { for (auto& p : pairs) {
        if (small && p.first.size() + p.second.size() == 2 && (p.first == "X" && p.second == "X")) { continue; }
        for (auto f : {"t", "u", "v", "m", "nobody"}) { if (small && (f[0] == 'm' || (f[0] == 'n' && p.first != "A"))) { continue; } Op o{hop, p.first, p.second, f}; o.rel = rel; r.push_back(o); }
        for (auto& e : {S(-1), S(-1. + i), S(7), M({{1, 2}}), M({{3}, {i}}), MatrixXcd(0, 0), M({{0, i}, {1, 0}})}) { if (small && e.size() == 0 && p.first != "A") { continue; } Op o{anonymous, p.first, p.second}; o.rel = rel; o.energy = e; r.push_back(o); }
    } }
    return r;
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is a start definition and the first two calls; distinct: accepted call sequences";
    info.states = "accepted"; info.transitions = "checks"; info.traces = "rejected";
    info.assumptions = {"offsets within 0.05 of the limit of 0.55 lattice vectors are not tried", "an anonymous hopping whose energy several families share may belong to any of them"};
    return pbv::run(argc, argv, "C09", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        for (int ndim = 1; ndim <= 3; ++ndim) {
            auto const full = alphabet(ndim, false), small = alphabet(ndim, true);
            auto const bare = ndim == 1 ? cpb::Lattice(Cartesian(1, 0, 0)) : ndim == 2 ? cpb::Lattice(Cartesian(1, 0, 0), Cartesian(0.5f, 1, 0)) : cpb::Lattice(Cartesian(1, 0, 0), Cartesian(0, 1, 0), Cartesian(0.25f, 0, 1));
            auto const find = [&](std::string const& t) { for (auto& o : full) { if (o.text() == t) { return o; } } std::abort(); };
            std::vector<std::vector<std::string>> starts = {{},
                {"sublattice 'A' scalar [0]", "sublattice 'B' vector [1 0; 0 0]", "alias 'X' of 'A'", "register 't' [-1]", "register 'u' [1 2]", "register 'v' [1; 0+1i]"},
                {"sublattice 'A' [-1 2+1i; 0 3]", "sublattice 'B' scalar [0.5]", "alias 'X' of 'B'", "register 'u' [1 2]", "register 'm' [1 0+1i; 0 2]"},
                {"sublattice 'B' scalar [0.5]", "alias 'X' of 'B'", "sublattice 'A' scalar [0]", "alias 'Y' of 'X'", "hop A->B(0,0,0) [7]"}};
            for (size_t s = 0; s < starts.size(); ++s) {
                auto l = bare; Definition d; std::string text = str(ndim, "D: ");
                bool ok = true;
                for (auto& t : starts[s]) { auto const op = find(t); text += t + "; "; ok = ok && step(d, op); apply(l, op); settle(l, d, op); }
                if (!ok) { std::abort(); }
                int const depth = (ndim == 2 ? (s == 0 ? 3 : 2) : 2) + (deep && ndim != 3 ? 1 : 0);
                auto const& ops = depth > 2 && s != 0 ? small : full;
                for (auto& a : ops) {
                    auto d1 = d; bool const va = step(d1, a);
                    if (!va || depth == 1) {
                        if (w.next([&] { return text + a.text(); })) { Search q{w, ops, {}, text}; q.one(l, d, a, 1); w.progress(); }
                        continue;
                    }
                    auto l1 = l; if (!thrown([&] { apply(l1, a); }).empty()) { if (w.next([&] { return text + a.text(); })) { Search q{w, ops, {}, text}; q.one(l, d, a, 1); } continue; }
                    settle(l1, d1, a);
                    for (auto& b : ops) {
                        if (!w.next([&] { return text + a.text() + "; " + b.text(); })) { continue; }
                        Search q{w, ops, {}, text};
                        if (!whole(w, l1, d1, [&] { return text + a.text() + ": "; })) { continue; }
                        q.path.push_back(a.text());
                        q.one(l1, d1, b, depth - 1); w.progress();
                    }
                }
            }
        }
    });
}
