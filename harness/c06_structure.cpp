// C06: structure modifiers and generators -- every sequence of operations within bounds, on every base structure
#include "shapes.hpp"
using namespace gen;

namespace {

struct Base { std::string name; Spec spec; bool shaped; RefShape shape; Index3D block; Index3D period; };

std::vector<Base> bases(bool deep) {
    std::vector<Base> r;
    auto const none = ball({0, 0, 0}, 1);
    auto const add = [&](std::string n, Spec s, Index3D block, Index3D period = {0, 0, 0}) { r.push_back({n, s, false, none, block, period}); };
    add("square 3x2", square(), {3, 2, 1});
    add("dimer chain 4", dimer_chain(), {4, 1, 1});
    add("supercell 2x1", supercell(), {2, 1, 1});
    add("bilayer 2x2", bilayer(), {2, 2, 1});
    add("bilayer 2x2 periodic 2,2", bilayer(), {2, 2, 1}, {2, 2, 0});
    add("supercell 1x2 periodic 1,0", supercell(), {1, 2, 1}, {1, 0, 0});
    add("dimer chain 3 periodic 3", dimer_chain(), {3, 1, 1}, {3, 0, 0});
    r.push_back({"honeycomb in a ball", honeycomb(), true, ball({0.1f, 0.2f, 0}, 1.33f), {1, 1, 1}, {0, 0, 0}});
    // sublattices with several orbitals, but all hoppings between single orbitals (or none at all)
    Spec lone; lone.vectors = {{1, 0, 0}}; lone.sub("A", {0, 0, 0}, onsite_energy(2, 2, upper_complex)); lone.sub("B", {0.5f, 0, 0}, scalar(1));
    add("lone pairs 2", lone, {2, 1, 1});
    lone.hop({1, 0, 0}, 1, 1, "t", scalar(2));
    add("lone pairs with a chain 3 periodic 3", lone, {3, 1, 1}, {3, 0, 0});
    if (deep) {
        add("no hoppings 2x2", no_hoppings(), {2, 2, 1});
        add("cubic 2x2x1 periodic 0,2,1", cubic(), {2, 2, 1}, {0, 2, 1});
        add("oblique 2x3 periodic 2,0", oblique(), {2, 3, 1}, {2, 0, 0});
        r.push_back({"square far in a rectangle", square_far(), true, rectangle(-1.3f, 1.2f, -1.4f, 1.3f), {1, 1, 1}, {0, 0, 0}});
        r.push_back({"bilayer in a rectangle", bilayer(), true, rectangle(-1.1f, 1.2f, -0.9f, 1.3f), {1, 1, 1}, {0, 0, 0}});
    }
    return r;
}

enum Op { remove_right, remove_one, remove_family, remove_dangling2, shift_family, stretch, sites1, sites2, sites_none, bonds, bonds_matrix, bonds_repeated, num_ops, bad_high = num_ops, bad_low, bad_length, bad_size, all_ops };
char const* const op_names[] = {"remove right half", "remove one", "remove last family", "remove one, min_neighbors 2", "shift first family", "stretch", "add 1-orbital sites", "add 2-orbital site",
                                "add no sites", "add bonds", "add bonds of another size", "add repeated bonds",
                                "add a bond to a site past the end", "add a bond to a negative site", "add bonds with unequal lists", "add a bond whose energy has the wrong size"};

/// Everything about one step: how the reference changes, and what the real code should see
struct Step { Op op; int n; System before; std::vector<std::pair<int, int>> pairs; MatrixXcd energy; std::vector<Cartesian> added; std::string name; std::set<int> removed; };

std::vector<int> alive(System const& s) { std::vector<int> r; for (size_t i = 0; i < s.sites.size(); ++i) { if (s.sites[i].alive) { r.push_back(static_cast<int>(i)); } } return r; }

void prune(System& s, std::vector<int> const& original, int least) {
    for (bool changed = true; changed;) {
        changed = false;
        erase_dead_bonds(s);
        std::vector<int> have(s.sites.size(), 0);
        for (auto& b : s.bonds) { ++have[b.a]; ++have[b.b]; }
        for (size_t i = 0; i < s.sites.size(); ++i) { if (s.sites[i].alive && have[i] < least && have[i] < original[i]) { s.sites[i].alive = false; changed = true; break; } }
    }
}

/// Apply an operation to the reference; false when it is expected to be refused
bool apply(Step& st, System& s, Spec const& spec, std::vector<int> const& original, bool after_generator) {
    st.before = s;
    auto const live = alive(s);
    auto const kill = [&](int i) { s.sites[i].alive = false; st.removed.insert(i); };
    auto const first_family = spec.family_of(0);
    std::string const last_family = spec.family_of(static_cast<int>(spec.subs.size()) - 1);
    switch (st.op) {
        case remove_right: for (int i : live) { if (s.sites[i].pos.x() > 0.4f) { kill(i); } } break;
        case remove_one: case remove_dangling2: if (!live.empty()) { kill(live[(st.n * 5 + 3) % live.size()]); } break;
        case remove_family: for (int i : live) { if (s.sites[i].family == last_family) { kill(i); } } break;
        case shift_family: for (auto& x : s.sites) { if (x.family == first_family) { x.pos += Cartesian(0.03125f, -0.0625f, 0.25f); } } break;
        case stretch: for (auto& x : s.sites) { x.pos.x() = x.pos.x() * 1.25f; x.pos.z() -= 0.125f; } break;
        case sites1: case sites2: {
            auto const norb = st.op == sites1 ? 1 : 2;
            st.energy = onsite_energy(5 + st.n, norb, norb == 1 ? diagonal : upper_complex);
            for (int i = 0; i < (norb == 1 ? 2 : 1); ++i) {
                Cartesian const p(0.3125f + static_cast<float>(i), 0.1875f * static_cast<float>(st.n + 1), 2.5f);
                st.added.push_back(p);
                s.sites.push_back({st.name, p, hermitian(st.energy), Index3D(0, 0, 0), -1, true});
            }
            break;
        }
        case sites_none: st.energy = onsite_energy(5 + st.n, 3, diagonal); break;
        case bonds: case bonds_matrix: case bonds_repeated: {
            // the orbital counts of the bond: those of the first two sites which differ (or not)
            int rows = 1, cols = 1;
            if (!live.empty()) { rows = cols = static_cast<int>(s.sites[live.back()].onsite.rows()); }
            if (st.op == bonds_matrix) { for (int i : live) { if (s.sites[i].onsite.rows() != cols) { rows = static_cast<int>(s.sites[i].onsite.rows()); } } }
            st.energy = hop_energy(3 + st.n, rows, cols, st.op != bonds_repeated);
            if (st.op == bonds_repeated) { st.energy = MatrixXcd::Constant(1, 1, 0.75 + st.n); rows = cols = 1; }
            for (size_t i = 0; i < live.size() && st.pairs.size() < 4; ++i) { for (size_t j = 0; j < live.size() && st.pairs.size() < 4; ++j) {
                auto const a = live[i], b = live[j];
                if (a == b || s.sites[a].onsite.rows() != rows || s.sites[b].onsite.rows() != cols || (i * 3 + j * 2 + static_cast<size_t>(st.n)) % 4 != 0) { continue; }
                bool seen = false; for (auto& p : st.pairs) { seen = seen || (p.first == b && p.second == a); }
                if (!seen) { st.pairs.push_back({a, b}); }
            } }
            for (auto& p : st.pairs) { s.bonds.push_back({p.first, p.second, st.name, st.energy, Cartesian(0, 0, 0), Index3D(0, 0, 0)}); }
            if (st.op == bonds_repeated && !st.pairs.empty()) { auto const p = st.pairs[0]; st.pairs.push_back(p); st.pairs.push_back({p.second, p.first}); }
            break;
        }
        case bad_high: case bad_low: case bad_length: st.energy = MatrixXcd::Constant(1, 1, 1.5); return false;
        case bad_size: {
            if (live.size() < 2) { st.energy = MatrixXcd::Constant(1, 1, 1.5); st.op = bad_length; return false; }
            auto const a = live[0], b = live[live.size() - 1];
            st.energy = hop_energy(1, s.sites[a].onsite.rows() + (st.n % 2), s.sites[b].onsite.rows() + 1 - (st.n % 2), false);
            st.pairs.push_back({a, b});
            return false;
        }
        default: break;
    }
    if (st.op == remove_dangling2) { if (after_generator) { return false; } prune(s, original, 2); }
    erase_dead_bonds(s);
    return true;
}

/// Finds the reference site of what the real code shows
int identify(System const& s, std::string const& family, Cartesian pos) {
    for (size_t i = 0; i < s.sites.size(); ++i) { if (s.sites[i].alive && s.sites[i].family == family && close(s.sites[i].pos, pos)) { return static_cast<int>(i); } }
    return -1;
}

void run_case(pbv::Worker& w, Base const& base, std::vector<Op> const& ops) {
    auto const& spec = base.spec;
    // the structure before all operations
    System r;
    if (base.shaped) { bool ambiguous; r = carve(spec, base.shape, ambiguous); if (ambiguous) { w.violation("setup", "ambiguous shape"); return; } }
    else {
        r.sites = block_sites(spec, primitive_first(base.block), base.block);
        if (base.period == Index3D(0, 0, 0)) { connect(r, spec); }
        else { connect_periodic(r, spec, primitive_first(base.block), base.period); }
    }
    std::vector<int> original(r.sites.size(), 0);
    if (base.shaped) { for (size_t i = 0; i < r.sites.size(); ++i) { for (auto& t : spec.terms) { original[i] += (t.from == r.sites[i].sub) + (t.to == r.sites[i].sub); } } }
    else { for (auto& b : r.bonds) { ++original[b.a]; ++original[b.b]; } }

    std::vector<Step> steps;
    bool refused = false, generated = false, cplx = spec.any_complex();
    for (size_t n = 0; n < ops.size(); ++n) {
        Step st; st.op = ops[n]; st.n = static_cast<int>(n); st.name = str("new", n);
        if (!apply(st, r, spec, original, generated)) { refused = true; }
        original.resize(r.sites.size(), 0);
        generated = generated || ops[n] >= sites1;
        if (st.energy.size() > 0) { cplx = cplx || st.energy.imag().cwiseAbs().maxCoeff() > 0; }
        steps.push_back(st);
        if (refused) { break; }
    }

    auto const lattice = make(spec);
    cpb::Model model(lattice);
    if (base.shaped) { model.add(base.shape.shape); } else { model.add(cpb::Primitive(base.block[0], base.block[1], base.block[2])); }
    if (base.period != Index3D(0, 0, 0)) {
        float len[3] = {-1, -1, -1};
        for (int d = 0; d < spec.ndim(); ++d) { if (base.period[d] > 0) { len[d] = static_cast<float>(base.period[d]) * spec.vectors[d].norm(); } }
        model.add(cpb::TranslationalSymmetry(len[0], len[1], len[2]));
    }
    std::map<std::string, std::string> family;   // aliases may be shown by either name
    for (size_t i = 0; i < spec.subs.size(); ++i) { family[spec.subs[i].name] = spec.family_of(static_cast<int>(i)); }
    auto const family_of = [&](cpb::string_view name) { auto it = family.find(std::string(name)); return it == family.end() ? std::string(name) : it->second; };
    std::vector<int> seen(steps.size(), 0);
    std::string wrong;
    auto const complain = [&](std::string const& s) { if (wrong.empty()) { wrong = s; } };

    for (size_t n = 0; n < steps.size(); ++n) {
        auto const& st = steps[n];
        auto const label = str("step ", n, " (", op_names[st.op], ")");
        switch (st.op) {
            case remove_right: case remove_one: case remove_family: case remove_dangling2:
                model.add(cpb::SiteStateModifier([&, n, label](Eigen::Ref<cpb::ArrayX<bool>> state, cpb::CartesianArrayConstRef pos, cpb::string_view sub) {
                    auto const& st = steps[n]; auto const f = family_of(sub);
                    if (state.size() != pos.size()) { complain(str(label, ": ", state.size(), " states and ", pos.size(), " positions")); return; }
                    for (idx_t i = 0; i < state.size(); ++i) {
                        if (!state[i]) { continue; }
                        ++seen[n];
                        auto const id = identify(st.before, f, Cartesian(pos.x()[i], pos.y()[i], pos.z()[i]));
                        if (id < 0) { complain(str(label, " sees a site of ", f, " at ", text(Cartesian(pos.x()[i], pos.y()[i], pos.z()[i])), " which should not be there")); return; }
                        if (st.removed.count(id)) { state[i] = false; }
                    }
                }, st.op == remove_dangling2 ? 2 : 0));
                break;
            case shift_family: case stretch:
                model.add(cpb::PositionModifier([&, n](cpb::CartesianArrayRef pos, cpb::string_view sub) {
                    auto const& st = steps[n]; auto const f = family_of(sub);
                    for (idx_t i = 0; i < pos.size(); ++i) {
                        // removed sites may still be shown
                        if (identify(st.before, f, Cartesian(pos.x()[i], pos.y()[i], pos.z()[i])) >= 0) { ++seen[n]; }
                        if (st.op == stretch) { pos.x()[i] = pos.x()[i] * 1.25f; pos.z()[i] -= 0.125f; }
                        else if (f == spec.family_of(0)) { pos.x()[i] += 0.03125f; pos.y()[i] -= 0.0625f; pos.z()[i] += 0.25f; }
                    }
                }));
                break;
            case sites1: case sites2: case sites_none:
                model.add(cpb::SiteGenerator(st.name, st.energy, [&, n, label](cpb::System const& s) {
                    auto const& st = steps[n];
                    for (auto& x : real_sites(s)) { if (identify(st.before, x.family, x.pos) < 0) { complain(str(label, " sees a site of ", x.family, " at ", text(x.pos), " which should not be there")); } else { ++seen[n]; } }
                    cpb::CartesianArray a(static_cast<idx_t>(st.added.size()));
                    for (size_t i = 0; i < st.added.size(); ++i) { a[static_cast<idx_t>(i)] = st.added[i]; }
                    return a;
                }));
                break;
            default:
                model.add(cpb::HoppingGenerator(st.name, st.energy, [&, n, label](cpb::System const& s) {
                    auto const& st = steps[n];
                    std::map<int, int> at; auto const real = real_sites(s);
                    for (size_t i = 0; i < real.size(); ++i) {
                        auto const id = identify(st.before, real[i].family, real[i].pos);
                        if (id < 0) { complain(str(label, " sees a site of ", real[i].family, " at ", text(real[i].pos), " which should not be there")); } else { ++seen[n]; at[id] = static_cast<int>(i); }
                    }
                    auto const last = static_cast<int>(real.size()) - 1;
                    if (st.op == bad_high || st.op == bad_low || st.op == bad_length) {
                        cpb::HoppingGenerator::Result result{cpb::ArrayXi::Zero(2), cpb::ArrayXi::Zero(st.op == bad_length ? 1 : 2)};
                        (st.n % 2 ? result.from : result.to)[0] = st.op == bad_high ? last + 1 : st.op == bad_low ? -1 : 0;
                        return result;
                    }
                    auto const size = static_cast<idx_t>(st.pairs.size());
                    cpb::HoppingGenerator::Result result{cpb::ArrayXi(size), cpb::ArrayXi(size)};
                    for (idx_t i = 0; i < size; ++i) {
                        auto const& p = st.pairs[static_cast<size_t>(i)];
                        if (!at.count(p.first) || !at.count(p.second)) { complain(str(label, ": a site is missing")); result.from[i] = result.to[i] = 0; continue; }
                        result.from[i] = at[p.first]; result.to[i] = at[p.second];
                    }
                    return result;
                }));
        }
    }
    auto problem = thrown([&] { model.system(); });
    if (problem.empty() && refused && steps.back().op == bad_size) { problem = thrown([&] { model.hamiltonian(); }); }
    if (!w.check(wrong.empty(), "view", [&] { return wrong; })) { return; }
    if (refused) { w.check(!problem.empty(), "refused", [&] { return str("expected an error from: ", op_names[steps.back().op]); }); w.count("refused"); return; }
    if (r.num_sites() == 0) { w.check(!problem.empty(), "empty", [&] { return std::string("expected an error because no site is left"); }); w.count("empty"); return; }
    if (!w.check(problem.empty(), "error", [&] { return problem; })) { return; }
    for (size_t n = 0; n < steps.size(); ++n) {
        auto const want = steps[n].before.num_sites();
        if (!w.check(seen[n] == want, "view", [&] { return str("step ", n, " (", op_names[steps[n].op], ") was shown ", seen[n], " of ", want, " sites"); })) { return; }
    }
    for (int k = 0; k < (base.period == Index3D(0, 0, 0) ? 1 : 2); ++k) {
        auto const wave = k ? Cartesian(0.7f, -1.3f, 0.4f) : Cartesian(0, 0, 0);
        model.set_wave_vector(wave);
        auto const failed = thrown([&] { model.hamiltonian(); });
        if (!w.check(failed.empty(), "error", [&] { return failed; })) { return; }
        if (!match_model(w, model, r, wave, base.period == Index3D(0, 0, 0) ? 0 : 1e-4)) { return; }
        w.count("matrices");
    }
    auto h = pbv::hash(base.name);
    for (auto& x : r.sites) { if (x.alive) { h = pbv::mix(h, pbv::hash(str(x.family, text(x.pos)))); } }
    for (auto& b : r.bonds) { h = pbv::mix(h, pbv::hash(str(b.a, " ", b.b, b.family))); }
    w.distinct(h);
    w.count("steps", steps.size()); w.count("models");
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per base structure and sequence of operations; distinct = different resulting structures";
    info.states = "distinct"; info.transitions = "steps"; info.traces = "models";
    info.assumptions = {"a neighbour minimum is requested only for systems without periodic boundaries (its meaning across the boundary is not defined)",
                        "an alias may be shown to a modifier by its own name or by that of its original", "modifiers do not bring removed sites back"};
    return pbv::run(argc, argv, "C06", info, [](pbv::Worker& w) {
        auto const deep = w.ctx.thorough();
        for (auto const& base : bases(deep)) {
            std::vector<Op> ops;
            auto const leaf = [&] {
                if (w.next([&] { auto t = base.name + ":"; for (auto o : ops) { t += str(" [", op_names[o], "]"); } return t; })) { run_case(w, base, ops); }
            };
            std::function<void()> go = [&] {
                leaf();
                if (ops.size() == (deep ? 5u : 4u)) { return; }
                for (int o = num_ops; o < all_ops; ++o) { ops.push_back(static_cast<Op>(o)); leaf(); ops.pop_back(); }
                for (int o = 0; o < num_ops; ++o) {
                    if (o == remove_dangling2 && base.period != Index3D(0, 0, 0)) { continue; }
                    ops.push_back(static_cast<Op>(o)); go(); ops.pop_back();
                }
            };
            go();
        }
    });
}
