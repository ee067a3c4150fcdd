// C08: leads -- every lead and pair of leads of a family, on every system of a family, against the lattice definition
#include "shapes.hpp"
using namespace gen;

namespace {

struct LeadSpec { int direction; RefShape shape; };

/// The strip of sites whose distance from the line `center + t * axis vector` is below the half width (in the plane or in space)
RefShape contact(Spec const& spec, int direction, double along, double across, double half) {
    auto const axis = static_cast<size_t>(std::abs(direction) - 1);
    Cartesian const a = spec.vectors[axis].normalized();
    if (spec.ndim() == 2) {
        Cartesian const n(-a.y(), a.x(), 0);
        Cartesian const p = static_cast<float>(along) * a + static_cast<float>(across) * n;
        return line(p - static_cast<float>(half) * n, p + static_cast<float>(half) * n);
    }
    // a pillar along the vector, given by a box
    Cartesian const n = std::abs(a.x()) > 0.7f ? Cartesian(0, 1, 0) : Cartesian(1, 0, 0);
    Cartesian const p = static_cast<float>(along) * a + static_cast<float>(across) * n;
    auto const r = static_cast<float>(half);
    auto const value = [a, p, half](Cartesian q) { Cartesian const d = q - p; return half - (d - a * a.dot(d)).cast<double>().norm(); };
    cpb::FreeformShape const shape([a, p, r](cpb::CartesianArrayConstRef c) -> cpb::ArrayX<bool> {
        cpb::ArrayX<bool> is(c.size());
        for (idx_t i = 0; i < c.size(); ++i) { Cartesian const d = Cartesian(c.x()[i], c.y()[i], c.z()[i]) - p; is[i] = (d - a * a.dot(d)).norm() < r; }
        return is; }, Cartesian::Constant(2 * r), p);
    return {str("pillar ", text(p), " along ", text(a), " radius ", r), shape, value, 0, 0, 0, 0, 0, 0};
}

double on_f(Cartesian p) { return 0.5 * p.x() + 0.25 * p.y() - p.z() + 0.125; }
double hop_g(idx_t i, Cartesian p) { return 1 + 0.25 * double(i) + 0.125 * p.x() - 0.0625 * p.y(); }
double hop_phase(Cartesian a, Cartesian b) { return 0.5 * (b.x() - a.x()) + double(a.x()) * b.y() - double(b.x()) * a.y(); }

// 0: none, 1: real, 2: declared complex, 3: complex only far from the middle, not declared
void add_modifiers(cpb::Model& m, int kind) {
    using cpb::num::Tag;
    if (kind == 0) { return; }
    auto const each = [](cpb::ComplexArrayRef e, std::function<cd(cd, idx_t, idx_t, idx_t)> f) {
        idx_t const rows = e.ndim == 1 ? 1 : e.shape[0], cols = e.ndim == 1 ? 1 : e.shape[1], n = e.ndim == 1 ? e.shape[0] : e.shape[2];
        for (idx_t i = 0; i < rows; ++i) { for (idx_t j = 0; j < cols; ++j) { for (idx_t k = 0; k < n; ++k) {
            auto const at = (i * cols + j) * n + k;
            cd v = e.tag == Tag::f32 ? cd(static_cast<float*>(e.data)[at]) : e.tag == Tag::f64 ? cd(static_cast<double*>(e.data)[at])
                 : e.tag == Tag::cf32 ? cd(static_cast<std::complex<float>*>(e.data)[at]) : static_cast<cd*>(e.data)[at];
            v = f(v, i, j, k);
            if ((e.tag == Tag::f32 || e.tag == Tag::f64) && v.imag() != 0) { throw cpb::ComplexOverride(); }
            if (e.tag == Tag::f32) { static_cast<float*>(e.data)[at] = static_cast<float>(v.real()); } else if (e.tag == Tag::f64) { static_cast<double*>(e.data)[at] = v.real(); }
            else if (e.tag == Tag::cf32) { static_cast<std::complex<float>*>(e.data)[at] = std::complex<float>(v); } else { static_cast<cd*>(e.data)[at] = v; }
        } } }
    };
    auto const P = [](cpb::CartesianArrayConstRef p, idx_t k) { return Cartesian(p.x()[k], p.y()[k], p.z()[k]); };
    m.add(cpb::OnsiteModifier([=](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef p, cpb::string_view) { each(e, [&](cd v, idx_t i, idx_t j, idx_t k) { return i == j ? v + on_f(P(p, k)) : v; }); }));
    m.add(cpb::HoppingModifier([=](cpb::ComplexArrayRef e, cpb::CartesianArrayConstRef a, cpb::CartesianArrayConstRef b, cpb::string_view) {
        each(e, [&](cd v, idx_t i, idx_t j, idx_t k) {
            auto const pa = P(a, k), pb = P(b, k);
            v *= hop_g(i, pa) * hop_g(j, pb);
            bool const far = std::abs(pa.x() + pb.x()) > 3.9f || std::abs(pa.y() + pb.y()) > 3.9f;
            if (kind == 2 || (kind == 3 && far)) { v *= std::exp(cd(0, hop_phase(pa, pb))); }
            return v; }); }, kind == 2));
}
MatrixXcd modified_onsite(MatrixXcd e, Cartesian p, int kind) { if (kind) { for (idx_t i = 0; i < e.rows(); ++i) { e(i, i) += on_f(p); } } return e; }
MatrixXcd modified_hop(MatrixXcd e, Cartesian a, Cartesian b, int kind, bool& cplx) {
    if (kind) {
        for (idx_t i = 0; i < e.rows(); ++i) { for (idx_t j = 0; j < e.cols(); ++j) { e(i, j) *= hop_g(i, a) * hop_g(j, b); } }
        bool const far = std::abs(a.x() + b.x()) > 3.9f || std::abs(a.y() + b.y()) > 3.9f;
        if (kind == 2 || (kind == 3 && far)) { e *= std::exp(cd(0, hop_phase(a, b))); }
    }
    cplx |= e.imag().cwiseAbs().maxCoeff() > 0;
    return e;
}

// 0: none, 1: removal before the leads, 2: generated sites, 3: generated sites and a removal of the first of them, 4: generated sites, then removal of some lattice sites,
// 5: as 4, then hoppings between the generated sites, 6: as 4, then more generated sites
using State = Eigen::Ref<cpb::ArrayX<bool>>;
bool removed(Cartesian p) { return p.x() * p.x() + p.y() * p.y() < 0.3; }
void add_structure(cpb::Model& m, int kind) {
    if (kind == 0) { return; }
    auto const remove = [](State s, cpb::CartesianArrayConstRef p, cpb::string_view) { for (idx_t i = 0; i < s.size(); ++i) { if (removed(Cartesian(p.x()[i], p.y()[i], p.z()[i]))) { s[i] = false; } } };
    if (kind == 1) { m.add(cpb::SiteStateModifier(remove)); return; }
    m.add(cpb::SiteGenerator("N", onsite_energy(4, 1, diagonal), [](cpb::System const&) { cpb::CartesianArray a(2); a[0] = Cartesian(2, 0, 7); a[1] = Cartesian(1, 0, 7); return a; }));
    if (kind == 3) { m.add(cpb::SiteStateModifier([](State s, cpb::CartesianArrayConstRef, cpb::string_view f) { if (f == "N") { s[0] = false; } })); }
    if (kind >= 4) { m.add(cpb::SiteStateModifier(remove)); }
    if (kind == 5) { m.add(cpb::HoppingGenerator("N-N", 0.5, [](cpb::System const& sys) { auto const n = static_cast<int>(sys.num_sites()); cpb::HoppingGenerator::Result r; r.from = cpb::ArrayXi::Constant(1, n - 2); r.to = cpb::ArrayXi::Constant(1, n - 1); return r; })); }
    if (kind == 6) { m.add(cpb::SiteGenerator("M", onsite_energy(5, 1, diagonal), [](cpb::System const&) { cpb::CartesianArray a(1); a[0] = Cartesian(0, 0, 8); return a; })); }
}

struct Column { int sub; Index3D base; };   // base: the cell with the lead axis set to zero
bool operator<(Column const& a, Column const& b) { return std::make_tuple(a.sub, a.base[0], a.base[1], a.base[2]) < std::make_tuple(b.sub, b.base[0], b.base[1], b.base[2]); }

int const span = 9;

struct Case { Spec const& spec; RefShape const& shape; std::vector<LeadSpec> leads; int modifiers, structure; };

void run_case(pbv::Worker& w, Case const& c) {
    auto const& spec = c.spec;
    bool ambiguous = false;
    auto carved = carve(spec, c.shape, ambiguous, span);
    if (ambiguous || carved.num_sites() == 0) { w.count("ambiguous"); return; }
    using Key = std::tuple<int, int, int, int>;
    auto const cell_key = [](Index3D i, int s) { return Key(i[0], i[1], i[2], s); };
    std::map<Key, bool> original;
    for (auto& s : carved.sites) { if (s.alive && !(c.structure == 1 && removed(s.pos))) { original[cell_key(s.cell, s.sub)] = true; } }
    // every lattice site by position
    std::map<std::tuple<long, long, long, std::string>, std::pair<Index3D, int>> at;
    auto const pos_key = [](Cartesian p, std::string const& f) { auto const q = [](float v) { return std::lround(v * 64); }; return std::make_tuple(q(p.x()), q(p.y()), q(p.z()), f); };
    std::vector<std::set<Column>> columns(c.leads.size());
    std::vector<bool> all_meet(c.leads.size(), true);
    for (int s = 0; s < static_cast<int>(spec.subs.size()); ++s) {
        auto const lim = [&](int d) { return d < spec.ndim() ? span : 0; };
        for (int x = -lim(0); x <= lim(0); ++x) { for (int y = -lim(1); y <= lim(1); ++y) { for (int z = -lim(2); z <= lim(2); ++z) {
            Index3D const cell(x, y, z);
            at[pos_key(spec.position(cell, s), spec.family_of(s))] = {cell, s};
            for (size_t l = 0; l < c.leads.size(); ++l) {
                auto const axis = std::abs(c.leads[l].direction) - 1;
                if (cell[axis] != 0) { continue; }
                auto const v = c.leads[l].shape.inside(spec.position(cell, s));
                if (std::abs(v) < 1e-3) { ambiguous = true; }
                if (v > 0) { columns[l].insert({s, cell}); }
            }
        } } }
    }
    if (ambiguous) { w.count("ambiguous"); return; }
    auto const outermost = [&](Column const& col, int axis, int sign, int& index) {
        for (int i = sign * span; i != -sign * (span + 1); i -= sign) { auto cell = col.base; cell[axis] = i; if (original.count(cell_key(cell, col.sub))) { index = i; return true; } }
        return false;
    };
    bool must_work = true, must_fail = false;
    for (size_t l = 0; l < c.leads.size(); ++l) {
        auto const axis = std::abs(c.leads[l].direction) - 1; auto const sign = c.leads[l].direction > 0 ? 1 : -1;
        if (columns[l].empty()) { must_fail = true; must_work = false; }
        for (auto& col : columns[l]) { int i; if (!outermost(col, axis, sign, i)) { all_meet[l] = false; must_work = false; if (l == 0) { must_fail = true; } } }
    }
    auto const lattice = make(spec);
    cpb::Model m(lattice, c.shape.shape);
    for (auto& l : c.leads) { m.attach_lead(l.direction, l.shape.shape); }
    add_structure(m, c.structure); add_modifiers(m, c.modifiers);
    auto const problem = thrown([&] { m.eval(); });
    if (!problem.empty()) {
        w.count("rejected");
        if (c.structure >= 4 && problem.find("lead") != std::string::npos) { return; }   // the contact may have been removed
        w.check(!must_work, "rejected", [&] { return "every column of the lead meets the system, but it is rejected: " + problem; });
        return;
    }
    if (!w.check(!must_fail, "accepted", [&] { return std::string("a lead with a column which misses the system was accepted"); })) { return; }
    auto const& s = *m.system();
    auto const real = real_sites(s);
    std::map<Key, int> index;   // real index of every lattice site of the system
    for (size_t i = 0; i < real.size(); ++i) {
        if (real[i].family == "N" || real[i].family == "M") { continue; }
        auto const it = at.find(pos_key(real[i].pos, real[i].family));
        if (!w.check(it != at.end(), "system", [&] { return "the system has a site which is not on the lattice: " + real[i].family + text(real[i].pos); })) { return; }
        index[cell_key(it->second.first, it->second.second)] = static_cast<int>(i);
    }
    if (c.structure < 4) { for (auto& o : original) {
        if (!w.check(index.count(o.first) == 1, "system", [&] { return str("a site of the shape is missing: sublattice ", std::get<3>(o.first), " cell ", std::get<0>(o.first), ",", std::get<1>(o.first), ",", std::get<2>(o.first)); })) { return; }
    } }
    std::set<Key> explained; std::vector<int> junctions(c.leads.size());
    for (auto& o : original) { explained.insert(o.first); }
    if (!w.check(m.leads().size() == static_cast<int>(c.leads.size()), "count", [&] { return str(m.leads().size(), " leads"); })) { return; }
    for (size_t l = 0; l < c.leads.size(); ++l) {
        auto const lead = m.lead(l);
        auto const axis = std::abs(c.leads[l].direction) - 1; auto const sign = c.leads[l].direction > 0 ? 1 : -1;
        auto const lname = str("lead ", l, ": ");
        if (!w.check(lead.spec().axis == axis && lead.spec().sign == sign, "spec", [&] { return lname + "wrong direction"; })) { return; }
        auto const mine = real_sites(lead.system());
        if (!w.check(mine.size() == columns[l].size() && lead.indices().size() == mine.size() && static_cast<size_t>(lead.system().num_sites()) == mine.size(), "cross-section", [&] {
            return str(lname, mine.size(), " sites and ", lead.indices().size(), " indices, expected ", columns[l].size(), " columns"); })) { return; }
        Cartesian const shift = static_cast<float>(sign) * spec.vectors[static_cast<size_t>(axis)];
        std::set<Column> seen; std::set<int> used;
        System cells; int junction = 0;
        for (size_t i = 0; i < mine.size(); ++i) {
            auto const it = at.find(pos_key(mine[i].pos, mine[i].family));
            if (!w.check(it != at.end(), "cross-section", [&] { return lname + "a site is not on the lattice: " + mine[i].family + text(mine[i].pos); })) { return; }
            auto const cell = it->second.first; auto const sub = it->second.second;
            auto base = cell; base[axis] = 0;
            if (i == 0) { junction = cell[axis] - sign; }
            if (!w.check(cell[axis] - sign == junction, "cross-section", [&] { return lname + "the sites are of more than one period"; })) { return; }
            if (!w.check(columns[l].count({sub, base}) == 1 && seen.insert({sub, base}).second, "cross-section", [&] { return lname + "a site which is not in the cross-section, or is there twice: " + mine[i].family + text(mine[i].pos); })) { return; }
            auto const inner = lead.indices()[i];
            bool const good = inner >= 0 && inner < static_cast<int>(real.size()) && used.insert(inner).second;
            if (!w.check(good && real[static_cast<size_t>(inner)].family == mine[i].family && close(real[static_cast<size_t>(inner)].pos + shift, mine[i].pos), "indices", [&] {
                return str(lname, "site ", i, " ", mine[i].family, text(mine[i].pos), " is attached to index ", inner, good ? " " + real[static_cast<size_t>(inner)].family + text(real[static_cast<size_t>(inner)].pos) : " which does not exist or was used"); })) { return; }
            auto x = lattice_site(spec, cell, sub); x.onsite = modified_onsite(x.onsite, x.pos, c.modifiers); cells.sites.push_back(x);
        }
        // nothing of the system is on the lead's side of the junction
        junctions[l] = junction;
        for (auto& col : columns[l]) {
            for (int i = junction + sign; std::abs(i) <= span; i += sign) {
                auto cell = col.base; cell[axis] = i;
                if (!w.check(!index.count(cell_key(cell, col.sub)), "overlap", [&] { return str(lname, "a site of the system lies within the lead: sublattice ", col.sub, " cell ", text(cell)); })) { return; }
            }
        }
        // the onsite matrix
        bool cplx = false;
        connect(cells, spec);
        for (auto& b : cells.bonds) { b.energy = modified_hop(b.energy, cells.sites[static_cast<size_t>(b.a)].pos, cells.sites[static_cast<size_t>(b.b)].pos, c.modifiers, cplx); }
        std::vector<int> map(cells.sites.size()); for (size_t i = 0; i < map.size(); ++i) { map[i] = static_cast<int>(i); }
        auto const want0 = dense(lead.system(), cells, map);
        auto const h0 = ref::dense(lead.h0()), h1 = ref::dense(lead.h1());
        if (!w.check(h0.valid && h1.valid, "storage", [&] { return h0.problem + h1.problem; })) { return; }
        auto const tolerance = c.modifiers ? 2e-4 : 0;
        if (!w.check(difference(h0.m, want0) <= tolerance, "h0", [&] { return lname + where(h0.m, want0); })) { return; }
        // the coupling: rows in the lead, columns one period closer to the system
        int size; auto const offset = orbital_offsets(lead.system(), size);
        MatrixXcd want1 = MatrixXcd::Zero(size, size);
        for (size_t i = 0; i < cells.sites.size(); ++i) { for (size_t j = 0; j < cells.sites.size(); ++j) {
            auto const& a = cells.sites[i]; auto const& b = cells.sites[j];
            Index3D inner = b.cell; inner[axis] -= sign;
            Cartesian const inner_pos = b.pos - shift;
            for (auto& t : spec.terms) {
                if (t.from == a.sub && t.to == b.sub && Index3D(a.cell + t.rel) == inner) { auto const e = modified_hop(t.energy, a.pos, inner_pos, c.modifiers, cplx); want1.block(offset[i], offset[j], e.rows(), e.cols()) += e; }
                if (t.from == b.sub && t.to == a.sub && Index3D(inner + t.rel) == a.cell) { auto const e = modified_hop(t.energy, inner_pos, a.pos, c.modifiers, cplx); want1.block(offset[i], offset[j], e.cols(), e.rows()) += e.adjoint(); }
            }
        } }
        if (!w.check(difference(h1.m, want1) <= tolerance, "h1", [&] { return lname + where(h1.m, want1); })) { return; }
        if (!w.check((!cplx && c.modifiers != 2) || (h0.is_complex && h1.is_complex) , "type", [&] { return lname + "real matrices of complex energies"; })) { return; }
        w.count("leads"); w.maximum("lead sites", mine.size());
    }
    // the way from the junction to the shape, or to the way of another lead, is filled
    std::vector<std::set<Key>> ways(c.leads.size());
    auto const walk = [&](size_t l, auto&& visit) {
        auto const axis = std::abs(c.leads[l].direction) - 1; auto const sign = c.leads[l].direction > 0 ? 1 : -1;
        for (auto& col : columns[l]) {
            int out = 0;
            if (!outermost(col, axis, sign, out)) { out = -sign * span; }
            for (int i = junctions[l]; i * sign > out * sign; i -= sign) { auto cell = col.base; cell[axis] = i; if (!visit(cell, col.sub)) { break; } }
        }
    };
    for (size_t l = 0; l < c.leads.size(); ++l) { walk(l, [&](Index3D cell, int sub) { ways[l].insert(cell_key(cell, sub)); explained.insert(cell_key(cell, sub)); return true; }); }
    for (size_t l = 0; l < c.leads.size(); ++l) {
        bool ok = true;
        walk(l, [&](Index3D cell, int sub) {
            auto const k = cell_key(cell, sub);
            ok = ok && w.check(index.count(k) || c.structure >= 4, "filling", [&] { return str("lead ", l, ": the way to the system is not filled: sublattice ", sub, " cell ", text(cell)); });
            for (size_t o = 0; o < c.leads.size(); ++o) { if (o != l && ways[o].count(k)) { return false; } }
            return ok;
        });
        if (!ok) { return; }
    }
    // all sites which are not of the shape are there because of a lead
    if (c.leads.size() == 1 || must_work) { for (auto& x : index) {
        bool ok = explained.count(x.first) == 1;
        if (!w.check(ok, "extra", [&] { return str("a site of the system is neither in the shape nor on the way of a lead: sublattice ", std::get<3>(x.first), " cell ", std::get<0>(x.first), ",", std::get<1>(x.first), ",", std::get<2>(x.first)); })) { return; }
    } }
    w.count("models"); w.distinct(pbv::hash(w.current));
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is one lattice, shape, one or two leads, modifiers; distinct: models with attached leads";
    info.states = "models"; info.transitions = "checks"; info.traces = "leads";
    info.assumptions = {"contacts are perpendicular to the lattice vector of the lead, so that which columns of sites belong to the lead does not depend on where it is evaluated; sites within 1e-3 of an edge make a case ambiguous and it is skipped",
        "the position of the junction along the lead is only required to leave no site of the system within the lead and no gap between them"};
    return pbv::run(argc, argv, "C08", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        auto square_o = square(); square_o.offset = Cartesian(0.25f, -0.375f, 0);
        auto lattices = std::vector<Named>{{"square", square()}, {"square, offset", square_o}, {"honeycomb", honeycomb()}, {"supercell", supercell()}, {"bilayer", bilayer()}, {"cubic", cubic()}};
        lattices.push_back({"oblique", oblique()});
        if (deep) { lattices.push_back({"square far", square_far()}); lattices.push_back({"rows", rows()}); lattices.push_back({"no hoppings", no_hoppings()}); }
        for (auto& named : lattices) {
            auto const& spec = named.spec;
            bool const d3 = spec.ndim() == 3;
            std::vector<RefShape> shapes = {ball({0.1f, 0.2f, 0}, d3 ? 1.6f : 2.1f)};
            if (!d3) {
                shapes.push_back(rectangle(-1.6f, 1.7f, -1.3f, 2.2f));
                shapes.push_back(polygon({{-2.6f, -2.6f, 0}, {2.3f, -2.6f, 0}, {2.3f, -0.9f, 0}, {-0.45f, -0.9f, 0}, {-0.45f, 2.4f, 0}, {-2.6f, 2.4f, 0}}));   // L
                auto const ring = ball({0, 0, 0}, 3.1f);
                auto r = ring; r.text = "ring"; r.shape = cpb::FreeformShape([](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> { auto const d = (p.x().square() + p.y().square()).eval(); return d < 3.1f * 3.1f && d > 1.4f * 1.4f; }, Cartesian::Constant(6.2f));
                r.inside = [](Cartesian p) { auto const d = std::hypot(double(p.x()), double(p.y())); return std::min(3.1 - d, d - 1.4); };
                if (deep) { shapes.push_back(r); }
            }
            std::vector<double> const alongs = deep ? std::vector<double>{-14, -2.2, 0.07, 3.1, 14} : std::vector<double>{-14, 0.07};
            std::vector<double> const acrosses = deep ? std::vector<double>{-1.77, -0.93, -0.31, 0.13, 0.61, 1.47} : std::vector<double>{-0.93, 0.13, 1.47};
            std::vector<double> const halves = d3 ? std::vector<double>{0.41, 0.77, 1.2} : deep ? std::vector<double>{0.2, 0.52, 0.87, 1.33, 4} : std::vector<double>{0.2, 0.52, 1.33, 4};
            for (auto& shape : shapes) {
                std::vector<LeadSpec> singles;
                for (int dir = -spec.ndim(); dir <= spec.ndim(); ++dir) { if (dir == 0) { continue; } for (auto along : alongs) { for (auto across : acrosses) { for (auto half : halves) { singles.push_back({dir, contact(spec, dir, along, across, half)}); } } } }
                auto const go = [&](std::vector<LeadSpec> const& leads, int modifiers, int structure) {
                    if (w.next([&] { auto t = named.name + ", " + shape.text; for (auto& l : leads) { t += str(", lead ", l.direction, " at ", l.shape.text); } return t + str(", modifiers ", modifiers, ", structure ", structure); })) { run_case(w, {spec, shape, leads, modifiers, structure}); }
                };
                for (auto& a : singles) {
                    for (int mod = 0; mod <= 3; ++mod) { for (int st = 0; st <= 6; ++st) { if (mod == 0 || st == 0 || deep) { go({a}, mod, st); } } }
                }
                // pairs, at one position along
                std::vector<LeadSpec> some;
                for (int dir = -spec.ndim(); dir <= spec.ndim(); ++dir) { if (dir == 0) { continue; } for (auto across : acrosses) { for (auto half : halves) { if (!deep && !d3 && (half < 0.3 || half > 2)) { continue; } some.push_back({dir, contact(spec, dir, 0.07, across, half)}); } } }
                for (auto& a : some) { for (auto& b : some) { go({a, b}, 2, 0); } }
            }
        }
    });
}
