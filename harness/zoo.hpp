// A zoo of built systems: every sequence of simple structure operations, up to a length, on every base structure
#pragma once
#include "shapes.hpp"

namespace gen {

struct ZooBase { std::string name; Spec spec; bool shaped; RefShape shape; Index3D block; Index3D period; };

inline std::vector<ZooBase> zoo_bases(bool deep) {
    std::vector<ZooBase> r;
    auto const add = [&](std::string n, Spec s, Index3D block, Index3D period = {0, 0, 0}) { r.push_back({n, s, false, ball({0, 0, 0}, 1), block, period}); };
    auto three = Spec(); three.vectors = {{1, 0, 0}, {0, 1, 0}};
    // orbital counts which are not in order of definition, and aliases in between
    three.sub("C", {0, 0, 0}, onsite_energy(0, 3, diagonal)); three.sub("A", {0.5f, 0, 0}, onsite_energy(1, 1, diagonal)); three.alias("C2", 0, {0, 0.5f, 0});
    three.sub("B", {0.5f, 0.5f, 0}, onsite_energy(2, 2, upper_complex)); three.alias("A2", 1, {0.25f, 0.25f, 0.5f}); three.sub("D", {0.25f, 0.75f, 0}, onsite_energy(3, 2, full_real));
    three.hop({0, 0, 0}, 1, 0, "a", hop_energy(0, 1, 3, true)); three.hop({1, 0, 0}, 3, 5, "b", hop_energy(1, 2, 2, false)); three.hop({0, 1, 0}, 2, 1, "c", hop_energy(2, 3, 1, true));
    three.hop({0, -1, 0}, 4, 4, "d", hop_energy(3, 1, 1, true)); three.hop({0, 0, 0}, 0, 2, "e", hop_energy(4, 3, 3, true));
    add("square 3x2", square(), {3, 2, 1});
    add("dimer chain 4", dimer_chain(), {4, 1, 1});
    add("supercell 2x1", supercell(), {2, 1, 1});
    add("bilayer 2x2 periodic 2,2", bilayer(), {2, 2, 1}, {2, 2, 0});
    add("mixed 2x2", three, {2, 2, 1});
    add("mixed 1x2 periodic 1,2", three, {1, 2, 1}, {1, 2, 0});
    add("no hoppings 2x1", no_hoppings(), {2, 1, 1});
    r.push_back({"honeycomb in a ball", honeycomb(), true, ball({0.1f, 0.2f, 0}, 1.33f), {1, 1, 1}, {0, 0, 0}});
    if (deep) {
        add("cubic 2x1x2 periodic 2,0,2", cubic(), {2, 1, 2}, {2, 0, 2});
        add("square far 4x3 periodic 2,0", square_far(), {4, 3, 1}, {2, 0, 0});
        r.push_back({"mixed in a rectangle", three, true, rectangle(-1.1f, 1.2f, -0.9f, 1.3f), {1, 1, 1}, {0, 0, 0}});
        r.push_back({"oblique in a ball", oblique(), true, ball({0.1f, 0.2f, 0}, 1.63f), {1, 1, 1}, {0, 0, 0}});
    }
    return r;
}

enum ZooOp { zoo_remove_right, zoo_remove_third, zoo_remove_family, zoo_shift, zoo_sites1, zoo_sites2, zoo_sites_none, zoo_bonds, zoo_ops };
inline char const* zoo_op_name(int o) {
    char const* const names[] = {"remove right half", "remove every third", "remove last family", "shift", "add 1-orbital sites", "add 2-orbital sites", "add no sites", "add bonds"};
    return names[o];
}

inline void zoo_apply(cpb::Model& m, Spec const& spec, int op, int n) {
    auto const name = str("new", n);
    auto const last = spec.family_of(static_cast<int>(spec.subs.size()) - 1);
    std::set<std::string> last_names;
    for (size_t i = 0; i < spec.subs.size(); ++i) { if (spec.family_of(static_cast<int>(i)) == last) { last_names.insert(spec.subs[i].name); } }
    using State = Eigen::Ref<cpb::ArrayX<bool>>;
    switch (op) {
        case zoo_remove_right: m.add(cpb::SiteStateModifier([](State s, cpb::CartesianArrayConstRef p, cpb::string_view) { for (idx_t i = 0; i < s.size(); ++i) { if (p.x()[i] > 0.6f) { s[i] = false; } } })); break;
        case zoo_remove_third: m.add(cpb::SiteStateModifier([n](State s, cpb::CartesianArrayConstRef, cpb::string_view) { for (idx_t i = n % 3; i < s.size(); i += 3) { s[i] = false; } })); break;
        case zoo_remove_family: m.add(cpb::SiteStateModifier([last_names](State s, cpb::CartesianArrayConstRef, cpb::string_view f) { if (last_names.count(f)) { s.setConstant(false); } })); break;
        case zoo_shift: m.add(cpb::PositionModifier([](cpb::CartesianArrayRef p, cpb::string_view f) { for (idx_t i = 0; i < p.size(); ++i) { p.x()[i] += 0.0625f * static_cast<float>(f[0] - 'A'); p.z()[i] -= 0.25f; } })); break;
        case zoo_sites1: case zoo_sites2: case zoo_sites_none: {
            int const norb = op == zoo_sites1 ? 1 : op == zoo_sites2 ? 2 : 3, count = op == zoo_sites_none ? 0 : 2;
            m.add(cpb::SiteGenerator(name, onsite_energy(5 + n, norb, norb == 2 ? upper_complex : diagonal), [n, count](cpb::System const&) {
                cpb::CartesianArray a(count);
                for (int i = 0; i < count; ++i) { a[i] = Cartesian(0.3125f + static_cast<float>(i), 0.1875f * static_cast<float>(n + 1), 2.5f); }
                return a;
            }));
            break;
        }
        case zoo_bonds:
            m.add(cpb::HoppingGenerator(name, hop_energy(3 + n, 1, 1, true), [](cpb::System const& s) {
                // single-orbital pairs without a bond
                std::vector<idx_t> one; std::set<std::pair<int, int>> joined;
                for (auto const& sub : s.compressed_sublattices) { if (sub.num_orbitals() == 1) { for (auto i = sub.sys_start(); i < sub.sys_end(); ++i) { one.push_back(i); } } }
                for (auto const& b : s.hopping_blocks) { for (auto const& c : b.coordinates()) { joined.insert({c.row, c.col}); joined.insert({c.col, c.row}); } }
                std::vector<std::pair<int, int>> pairs;
                for (size_t i = one.size(); i-- > 0;) { for (size_t j = 0; j < i; ++j) {
                    std::pair<int, int> const p(static_cast<int>(one[i]), static_cast<int>(one[j]));
                    if (pairs.size() < 3 && (i + j) % 2 == 1 && !joined.count(p)) { pairs.push_back((i + j) % 3 ? p : std::make_pair(p.second, p.first)); }
                } }
                auto const size = static_cast<idx_t>(pairs.size());
                cpb::HoppingGenerator::Result r{cpb::ArrayXi(size), cpb::ArrayXi(size)};
                for (idx_t i = 0; i < size; ++i) { r.from[i] = pairs[static_cast<size_t>(i)].first; r.to[i] = pairs[static_cast<size_t>(i)].second; }
                return r;
            }));
            break;
    }
}

/// Call f(worker, base, model) for every member of the zoo; those without sites are skipped
template<class F> void zoo(pbv::Worker& w, bool deep, int depth, F f) {
    for (auto const& base : zoo_bases(deep)) {
        std::vector<int> ops;
        std::function<void()> go = [&] {
            if (w.next([&] { auto t = base.name + ":"; for (auto o : ops) { t += str(" [", zoo_op_name(o), "]"); } return t; })) {
                auto const lattice = make(base.spec);
                cpb::Model m(lattice);
                if (base.shaped) { m.add(base.shape.shape); } else { m.add(cpb::Primitive(base.block[0], base.block[1], base.block[2])); }
                if (base.period != Index3D(0, 0, 0)) {
                    float len[3] = {-1, -1, -1};
                    for (int d = 0; d < base.spec.ndim(); ++d) { if (base.period[d] > 0) { len[d] = static_cast<float>(base.period[d]) * base.spec.vectors[d].norm(); } }
                    m.add(cpb::TranslationalSymmetry(len[0], len[1], len[2]));
                }
                for (size_t n = 0; n < ops.size(); ++n) { zoo_apply(m, base.spec, ops[n], static_cast<int>(n)); }
                auto const problem = thrown([&] { m.system(); });
                if (problem.empty()) { f(base, m); } else { w.check(problem.find("0 sites") != std::string::npos, "error", [&] { return problem; }); w.count("empty"); }
            }
            if (static_cast<int>(ops.size()) == depth) { return; }
            for (int o = 0; o < zoo_ops; ++o) { ops.push_back(o); go(); ops.pop_back(); }
        };
        go();
    }
}

} // namespace gen
