// C04: site and orbital indices, ranges and position queries -- on every system of the zoo, against a direct scan
#include "zoo.hpp"
using namespace gen;

namespace {

void check(pbv::Worker& w, ZooBase const& base, cpb::Model& model) {
    auto const& s = *model.system();
    auto const n = s.num_sites();
    auto const& cs = s.compressed_sublattices;
    auto const bad = [&](bool ok, char const* key, std::function<std::string()> const& what) { return !w.check(ok, key, what); };

    // the sublattice list, written out by hand from the raw data
    auto const ids = cs.alias_ids(), counts = cs.site_counts(), norbs = cs.orbital_counts();
    if (bad(ids.size() == counts.size() && ids.size() == norbs.size(), "lists", [&] { return std::string("the raw lists have different sizes"); })) { return; }
    std::vector<int> sub_of, norb_of, start_of; int orbital = 0;
    for (idx_t i = 0; i < ids.size(); ++i) {
        for (int k = 0; k < counts[i]; ++k) { sub_of.push_back(ids[i]); norb_of.push_back(norbs[i]); start_of.push_back(orbital); orbital += norbs[i]; }
    }
    auto const total = static_cast<idx_t>(sub_of.size());
    if (bad(total == n && s.positions.x.size() == n && s.positions.y.size() == n && s.positions.z.size() == n && cs.decompressed_size() == n, "sizes",
            [&] { return str(n, " positions but ", total, " sublattice entries, ", cs.decompressed_size(), " decompressed"); })) { return; }
    // every site has as many orbitals as its family
    for (idx_t i = 0; i < n; ++i) {
        auto const& e = s.site_registry.energy(cpb::SiteID(sub_of[static_cast<size_t>(i)]));
        if (bad(e.rows() == norb_of[static_cast<size_t>(i)], "orbitals", [&] { return str("site ", i, " has ", norb_of[static_cast<size_t>(i)], " orbitals, its family has ", e.rows()); })) { return; }
    }
    if (bad(s.hamiltonian_size() == orbital, "size", [&] { return str("hamiltonian_size is ", s.hamiltonian_size(), ", the orbitals add up to ", orbital); })) { return; }
    auto const& h = model.hamiltonian();
    if (bad(h.rows() == orbital && h.cols() == orbital, "size", [&] { return str("the Hamiltonian is ", h.rows(), "x", h.cols(), ", expected ", orbital); })) { return; }
    if (bad(s.hamiltonian_nnz() >= h.non_zeros() || !s.boundaries.empty(), "size", [&] { return str("the reserve of ", s.hamiltonian_nnz(), " is smaller than the ", h.non_zeros(), " elements"); })) { return; }
    auto const flat = cs.decompressed();
    for (idx_t i = 0; i < n; ++i) { if (bad(flat[i] == sub_of[static_cast<size_t>(i)], "decompressed", [&] { return str("entry ", i, " is ", flat[i]); })) { return; } }
    // iteration
    idx_t site = 0, ham = 0, which = 0;
    for (auto const& sub : cs) {
        auto const ok = which < ids.size() && sub.id().value() == ids[which] && sub.num_sites() == counts[which] && sub.num_orbitals() == norbs[which] && sub.sys_start() == site && sub.ham_start() == ham
                     && sub.sys_end() == site + counts[which] && sub.ham_size() == counts[which] * norbs[which] && sub.ham_end() == ham + sub.ham_size();
        if (bad(ok, "iteration", [&] { return str("block ", which, " [", sub.sys_start(), ",", sub.sys_end(), ") [", sub.ham_start(), ",", sub.ham_end(), ") expected to start at ", site, " and ", ham); })) { return; }
        site += counts[which]; ham += counts[which] * norbs[which]; ++which;
    }
    if (bad(which == ids.size(), "iteration", [&] { return str(which, " blocks instead of ", ids.size()); })) { return; }
    for (idx_t o = 0; o <= 5; ++o) {
        idx_t expected = -1; site = 0;
        for (idx_t i = 0; i < ids.size(); ++i) { if (norbs[i] == o && expected < 0) { expected = site; } site += counts[i]; }
        idx_t got = -1; auto const problem = thrown([&] { got = cs.start_index(o); });
        if (bad(expected < 0 ? !problem.empty() : got == expected, "start_index", [&] { return str("start_index(", o, ") is ", got, " ", problem, ", expected ", expected); })) { return; }
    }
    // site index to orbital indices
    auto const expanded = s.expanded_positions();
    if (bad(expanded.size() == orbital && expanded.y.size() == orbital && expanded.z.size() == orbital, "expanded", [&] { return str(expanded.size(), " expanded positions instead of ", orbital); })) { return; }
    for (idx_t i = 0; i < n; ++i) {
        auto const k = s.to_hamiltonian_indices(i);
        if (bad(k.size() == norb_of[static_cast<size_t>(i)], "orbital indices", [&] { return str("site ", i, " has ", k.size(), " indices"); })) { return; }
        for (idx_t o = 0; o < k.size(); ++o) {
            if (bad(k[o] == start_of[static_cast<size_t>(i)] + o, "orbital indices", [&] { return str("orbital ", o, " of site ", i, " is ", k[o], ", expected ", start_of[static_cast<size_t>(i)] + o); })) { return; }
            if (bad(Cartesian(expanded[k[o]]) == Cartesian(s.positions[i]), "expanded", [&] { return str("orbital ", o, " of site ", i, " is at another position"); })) { return; }
        }
    }
    for (idx_t i : {idx_t(-1), n, n + 5, idx_t(-1000000)}) {
        if (bad(!thrown([&] { s.to_hamiltonian_indices(i); }).empty(), "accepted", [&] { return str("to_hamiltonian_indices(", i, ") of ", n, " sites was accepted"); })) { return; }
    }
    // names
    auto const& reg = s.site_registry;
    auto const names = reg.get_names();
    auto const map = reg.name_map();
    if (bad(map.size() == names.size() && reg.size() == static_cast<idx_t>(names.size()) && reg.get_energies().size() == names.size(), "names", [&] { return std::string("the registry's lists have different sizes"); })) { return; }
    for (size_t i = 0; i < names.size(); ++i) {
        auto const id = cpb::SiteID(static_cast<int>(i));
        if (bad(reg.name(id) == names[i] && reg.id(names[i]) == id && map.count(names[i]) && map.at(names[i]) == static_cast<int>(i) && reg.energy(id) == reg.get_energies()[i], "names", [&] { return str("family ", i, " ", names[i]); })) { return; }
    }
    auto const past = cpb::SiteID(static_cast<int>(names.size()));
    if (bad(!thrown([&] { reg.name(past); }).empty() && !thrown([&] { reg.energy(past); }).empty() && !thrown([&] { reg.id("nothing"); }).empty() && !thrown([&] { s.sublattice_range("nothing"); }).empty()
            && !thrown([&] { s.find_nearest({0, 0, 0}, "nothing"); }).empty(), "accepted", [&] { return std::string("an unknown family was accepted"); })) { return; }
    // ranges and nearest sites
    std::set<std::string> present; for (auto x : sub_of) { present.insert(names[static_cast<size_t>(x)]); }
    std::set<std::string> blocks; for (idx_t i = 0; i < ids.size(); ++i) { blocks.insert(names[static_cast<size_t>(ids[i])]); }
    std::set<std::string> alias; for (size_t i = 0; i < base.spec.subs.size(); ++i) { if (base.spec.subs[i].original != static_cast<int>(i)) { alias.insert(base.spec.subs[i].name); } }
    std::vector<std::string> ask(names); ask.push_back("");
    for (auto& name : ask) {
        std::vector<idx_t> members;
        for (idx_t i = 0; i < n; ++i) { if (name.empty() || names[static_cast<size_t>(sub_of[static_cast<size_t>(i)])] == name) { members.push_back(i); } }
        cpb::Range range{-1, -1};
        auto const problem = thrown([&] { range = s.sublattice_range(name); });
        if (alias.count(name)) { if (bad(!problem.empty(), "alias range", [&] { return str("an alias has the range [", range.start, ",", range.end, ") of its own"); })) { return; } }
        else if (!members.empty()) {
            if (bad(problem.empty() && range.start == members.front() && range.end == members.back() + 1 && range.end - range.start == static_cast<idx_t>(members.size()), "range",
                    [&] { return str("the range of '", name, "' is [", range.start, ",", range.end, ") ", problem, ", expected [", members.front(), ",", members.back() + 1, ")"); })) { return; }
        } else if (bad(!problem.empty() || range.start == range.end, "range", [&] { return str("the range of '", name, "' should be empty"); })) { return; }
        w.count("queries");
        for (float x = -2.3f; x < 2.6f; x += 0.83f) { for (float y = -1.7f; y < 2; y += 0.61f) { for (float z : {0.f, 2.f}) {
            Cartesian const target(x, y, z);
            idx_t got = -1;
            auto const failed = thrown([&] { got = s.find_nearest(target, name); });
            w.count("queries");
            if (members.empty()) { if (bad(!failed.empty(), "nearest", [&] { return str("the nearest '", name, "' is ", got, " but there are none"); })) { return; } continue; }
            double best = 1e30, have = 1e31; bool member = false;
            for (idx_t i : members) {
                double const d = (Cartesian(s.positions[i]) - target).cast<double>().norm(); best = std::min(best, d);
                if (i == got) { have = d; member = true; }
            }
            if (bad(failed.empty() && member && have <= best + 1e-5, "nearest", [&] { return str("nearest '", name, "' to ", text(target), " is ", got, " ", failed, " at distance ", have, ", expected ", best); })) { return; }
        } } }
    }
    auto hash = pbv::mix(static_cast<pbv::u64>(n), static_cast<pbv::u64>(orbital));
    for (idx_t i = 0; i < n; ++i) { hash = pbv::mix(hash, pbv::hash(str(sub_of[static_cast<size_t>(i)], text(Cartesian(s.positions[i]))))); }
    w.distinct(hash); w.count("systems");
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per system of the zoo (base structure and sequence of structure operations); distinct = different site lists";
    info.states = "distinct"; info.transitions = "queries"; info.traces = "systems";
    info.assumptions = {"of two sites at the same distance (to 1e-5) either may be called nearest"};
    return pbv::run(argc, argv, "C04", info, [](pbv::Worker& w) {
        zoo(w, w.ctx.thorough(), w.ctx.thorough() ? 5 : 4, [&](ZooBase const& base, cpb::Model& m) { check(w, base, m); });
        // large single shapes: searching among many sites
        for (int size : {1, 7, 40}) { for (int far = 0; far < 2; ++far) {
            if (!w.next([&] { return str(far ? "supercell " : "bilayer ", size, "x", size); })) { continue; }
            ZooBase base{"large", far ? supercell() : bilayer(), false, ball({0, 0, 0}, 1), {size, size, 1}, {0, 0, 0}};
            auto const lattice = make(base.spec);
            cpb::Model m(lattice, cpb::Primitive(size, size));
            check(w, base, m);
        } }
    });
}
