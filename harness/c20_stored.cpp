// C20: stored form of a structure -- every system of the zoo, through the same calls as the Python pickling code
#include "zoo.hpp"
using namespace gen;

namespace {

cpb::HoppingBlocks restore(cpb::HoppingBlocks const& h) { return {h.get_num_sites(), h.get_serialized_blocks(), h.get_name_map()}; }
cpb::System restore(cpb::System const& s) {
    auto const& a = s.site_registry; auto const& b = s.hopping_registry;
    cpb::System r(cpb::SiteRegistry(a.get_energies(), a.get_names()), cpb::HoppingRegistry(b.get_energies(), b.get_names()));
    r.positions = cpb::CartesianArray(s.positions.x, s.positions.y, s.positions.z);
    r.compressed_sublattices = cpb::CompressedSublattices(s.compressed_sublattices.alias_ids(), s.compressed_sublattices.site_counts(), s.compressed_sublattices.orbital_counts());
    r.hopping_blocks = restore(s.hopping_blocks);
    for (auto& x : s.boundaries) { r.boundaries.push_back({restore(x.hopping_blocks), x.shift}); }
    return r;
}

using Triple = std::tuple<int, int, int>;
std::vector<Triple> list(cpb::HoppingBlocks const& h) {
    std::vector<Triple> r;
    for (auto const& b : h) { for (auto const& c : b.coordinates()) { r.push_back(Triple(b.family_id().value(), c.row, c.col)); } }
    return r;
}

bool same_blocks(pbv::Worker& w, cpb::HoppingBlocks const& a, cpb::HoppingBlocks const& b, idx_t sites) {
    auto const la = list(a), lb = list(b);
    if (!w.check(la == lb, "bonds", [&] { return str("the bonds changed: ", la.size(), " and ", lb.size()); })) { return false; }
    if (!w.check(a.get_num_sites() == sites && b.get_num_sites() == sites, "sites", [&] { return str("number of sites ", a.get_num_sites(), " and ", b.get_num_sites(), ", expected ", sites); })) { return false; }
    if (!w.check(a.get_name_map() == b.get_name_map(), "names", [&] { return std::string("the names changed"); })) { return false; }
    for (auto h : {&a, &b}) {
        if (!w.check(h->nnz() == static_cast<idx_t>(la.size()), "nnz", [&] { return str("nnz is ", h->nnz(), ", expected ", la.size()); })) { return false; }
        // neighbours, counted by hand
        std::vector<int> n(static_cast<size_t>(sites), 0);
        bool range = true;
        for (auto& t : la) { auto const r = std::get<1>(t), c = std::get<2>(t); if (r < 0 || c < 0 || r >= sites || c >= sites) { range = false; continue; } ++n[static_cast<size_t>(r)]; ++n[static_cast<size_t>(c)]; }
        if (!w.check(range, "range", [&] { return std::string("a bond names a site which does not exist"); })) { return false; }
        auto const got = h->count_neighbors();
        bool ok = got.size() == sites; for (idx_t i = 0; ok && i < sites; ++i) { ok = got[i] == n[static_cast<size_t>(i)]; }
        if (!w.check(ok, "neighbours", [&] { return std::string("count_neighbors is wrong"); })) { return false; }
        // the connectivity matrix holds exactly the bonds
        auto const csr = h->tocsr();
        std::set<Triple> want(la.begin(), la.end()), have;
        bool sorted = csr.isCompressed() && csr.rows() == sites && csr.cols() == sites;
        for (idx_t i = 0; sorted && i < sites; ++i) {
            for (auto k = csr.outerIndexPtr()[i]; k < csr.outerIndexPtr()[i + 1]; ++k) {
                have.insert(Triple(csr.valuePtr()[k], static_cast<int>(i), csr.innerIndexPtr()[k]));
                if (k > csr.outerIndexPtr()[i] && csr.innerIndexPtr()[k] <= csr.innerIndexPtr()[k - 1]) { sorted = false; }
            }
        }
        if (!w.check(sorted && have == want && static_cast<size_t>(csr.nonZeros()) == want.size(), "matrix", [&] { return str("the connectivity matrix has ", csr.nonZeros(), " elements, expected ", want.size()); })) { return false; }
    }
    return true;
}

void check(pbv::Worker& w, cpb::Model& model) {
    auto const& s = *model.system();
    auto const r = restore(s);
    auto const again = restore(r);
    for (auto x : {&r, &again}) {
        if (!w.check(x->num_sites() == s.num_sites() && (x->positions.x == s.positions.x).all() && (x->positions.y == s.positions.y).all() && (x->positions.z == s.positions.z).all(), "positions", [&] { return std::string("the positions changed"); })) { return; }
        auto const a = real_sites(s), b = real_sites(*x);
        bool ok = a.size() == b.size(); for (size_t i = 0; ok && i < a.size(); ++i) { ok = a[i].family == b[i].family && a[i].norb == b[i].norb && a[i].pos == b[i].pos; }
        if (!w.check(ok, "sites", [&] { return std::string("the sublattices changed"); })) { return; }
        if (!w.check(x->site_registry.get_names() == s.site_registry.get_names() && x->hopping_registry.get_names() == s.hopping_registry.get_names()
                     && x->site_registry.get_energies() == s.site_registry.get_energies() && x->hopping_registry.get_energies() == s.hopping_registry.get_energies()
                     && x->site_registry.name_map() == s.site_registry.name_map() && x->hopping_registry.name_map() == s.hopping_registry.name_map(), "registry", [&] { return std::string("names or energies changed"); })) { return; }
        if (!same_blocks(w, s.hopping_blocks, x->hopping_blocks, s.num_sites())) { return; }
        if (!w.check(x->boundaries.size() == s.boundaries.size(), "boundaries", [&] { return std::string("the number of boundaries changed"); })) { return; }
        for (size_t i = 0; i < s.boundaries.size(); ++i) {
            if (!w.check(x->boundaries[i].shift == s.boundaries[i].shift, "boundaries", [&] { return std::string("the shift of a boundary changed"); })) { return; }
            if (!same_blocks(w, s.boundaries[i].hopping_blocks, x->boundaries[i].hopping_blocks, s.num_sites())) { return; }
        }
        // queries
        if (!w.check(x->hamiltonian_size() == s.hamiltonian_size() && x->hamiltonian_nnz() == s.hamiltonian_nnz(), "size", [&] { return std::string("the Hamiltonian size changed"); })) { return; }
        for (idx_t i = 0; i < s.num_sites(); ++i) { if (!w.check((x->to_hamiltonian_indices(i) == s.to_hamiltonian_indices(i)).all(), "indices", [&] { return str("orbital indices of site ", i); })) { return; } }
        auto const ea = s.expanded_positions(), eb = x->expanded_positions();
        if (!w.check((ea.x == eb.x).all() && (ea.y == eb.y).all() && (ea.z == eb.z).all(), "expanded", [&] { return std::string("expanded positions"); })) { return; }
        auto names = s.site_registry.get_names(); names.push_back(""); names.push_back("nothing");
        for (auto& n : names) {
            cpb::Range p{-1, -1}, q{-1, -1}; idx_t i = -1, j = -1;
            auto const e1 = thrown([&] { p = s.sublattice_range(n); i = s.find_nearest({0.3f, 0.2f, 0.1f}, n); }), e2 = thrown([&] { q = x->sublattice_range(n); j = x->find_nearest({0.3f, 0.2f, 0.1f}, n); });
            if (!w.check(e1 == e2 && p.start == q.start && p.end == q.end && i == j, "queries", [&] { return str("'", n, "': ", e1, " ", e2); })) { return; }
        }
        // the restored structure builds the same Hamiltonian
        auto const before = dense(model.hamiltonian());
        auto const simple = cpb::ham::make<std::complex<float>>(*x, model.get_lattice(), cpb::HamiltonianModifiers{}, Cartesian(0, 0, 0), false);
        auto const after = dense(simple);
        if (!w.check(difference(before.m, after.m) < 1e-5, "hamiltonian", [&] { return where(after.m, before.m); })) { return; }
        w.count("restored");
    }
    auto hash = pbv::mix(static_cast<pbv::u64>(s.num_sites()), 7);
    for (auto& x : real_sites(s)) { hash = pbv::mix(hash, pbv::hash(str(x.family, text(x.pos)))); }
    for (auto& t : list(s.hopping_blocks)) { hash = pbv::mix(hash, pbv::hash(str(std::get<0>(t), " ", std::get<1>(t), " ", std::get<2>(t)))); }
    w.distinct(hash); w.count("systems");

    // inconsistent data
    auto const& cs = s.compressed_sublattices;
    auto const ids = cs.alias_ids(), counts = cs.site_counts(), norb = cs.orbital_counts();
    for (int which = 0; which < 3; ++which) { for (int delta : {-1, 1}) {
        cpb::ArrayXi v[3] = {ids, counts, norb};
        cpb::ArrayXi changed = cpb::ArrayXi::Constant(v[which].size() + delta, 1); v[which] = changed;
        if (!w.check(!thrown([&] { cpb::CompressedSublattices c(v[0], v[1], v[2]); }).empty(), "accepted", [&] { return str("sublattice lists of sizes ", v[0].size(), " ", v[1].size(), " ", v[2].size(), " were accepted"); })) { return; }
        w.count("rejected");
    } }
    auto const blocks = s.hopping_blocks.get_serialized_blocks();
    for (size_t b = 0; b < blocks.size(); ++b) { for (int side = 0; side < 2; ++side) { for (int delta : {-1, 1}) {
        auto x = blocks; auto& a = side ? x[b].first : x[b].second;
        if (a.size() + delta < 0) { continue; }
        cpb::ArrayXi changed = cpb::ArrayXi::Constant(a.size() + delta, 0); a = changed;
        if (!w.check(!thrown([&] { cpb::HoppingBlocks h(s.num_sites(), x, s.hopping_blocks.get_name_map()); }).empty(), "accepted", [&] { return str("block ", b, " with ", x[b].first.size(), " rows and ", x[b].second.size(), " columns was accepted"); })) { return; }
        w.count("rejected");
    } } }
    if (!blocks.empty()) {
        auto x = blocks; x.pop_back();
        auto y = blocks; y.push_back(blocks[0]);
        if (!w.check(!thrown([&] { cpb::HoppingBlocks h(s.num_sites(), x, s.hopping_blocks.get_name_map()); }).empty() && !thrown([&] { cpb::HoppingBlocks h(s.num_sites(), y, s.hopping_blocks.get_name_map()); }).empty(), "accepted",
                     [&] { return std::string("a wrong number of blocks was accepted"); })) { return; }
    }
    auto energies = s.site_registry.get_energies(); auto names = s.site_registry.get_names();
    names.pop_back();
    if (!w.check(!thrown([&] { cpb::SiteRegistry x(energies, names); }).empty() && !thrown([&] { cpb::HoppingRegistry x(energies, names); }).empty(), "accepted", [&] { return std::string("a registry with a missing name was accepted"); })) { return; }
    for (int which = 0; which < 3; ++which) {
        cpb::ArrayXf v[3] = {s.positions.x, s.positions.y, s.positions.z};
        cpb::ArrayXf changed = cpb::ArrayXf::Zero(v[which].size() + 1); v[which] = changed;
        if (!w.check(!thrown([&] { cpb::CartesianArray a(v[0], v[1], v[2]); }).empty(), "accepted", [&] { return std::string("positions of unequal lengths were accepted"); })) { return; }
    }
}

/// The sublattice list does not depend on how sites were added: every way of splitting the same blocks
void splits(pbv::Worker& w, bool deep) {
    std::vector<int> const counts{2, 1, 3}; std::vector<int> const ids{1, 0, 2}, norb{1, 2, 2};
    int const total = 6;
    for (int mask = 0; mask < (1 << (total - 1)); ++mask) {   // cut positions
        if (!w.next([&] { return str("sublattice blocks added in pieces ", mask); })) { continue; }
        cpb::CompressedSublattices c; int block = 0, used = 0, run = 0;
        for (int i = 0; i < total; ++i) {
            ++run; ++used;
            bool const end = used == counts[static_cast<size_t>(block)];
            if (end || (mask >> i & 1)) { if (run == 1) { c.add(cpb::SiteID(ids[static_cast<size_t>(block)]), norb[static_cast<size_t>(block)]); } else { c.add(cpb::SiteID(ids[static_cast<size_t>(block)]), norb[static_cast<size_t>(block)], run); } run = 0; }
            if (end) { ++block; used = 0; }
        }
        auto const a = c.alias_ids(), n = c.site_counts(), o = c.orbital_counts();
        bool ok = a.size() == 3; for (idx_t i = 0; ok && i < 3; ++i) { ok = a[i] == ids[static_cast<size_t>(i)] && n[i] == counts[static_cast<size_t>(i)] && o[i] == norb[static_cast<size_t>(i)]; }
        w.check(ok && thrown([&] { c.verify(total); }).empty() && !thrown([&] { c.verify(total + 1); }).empty(), "pieces", [&] { return std::string("the blocks depend on how the sites were added"); });
        // every subset of the sites kept
        for (int keep = 0; keep < (1 << total); keep += deep ? 1 : 3) {
            auto f = c; cpb::VectorX<bool> k(total); std::vector<int> left(3, 0);
            for (int i = 0; i < total; ++i) { k[i] = keep >> i & 1; left[i < 2 ? 0 : i < 3 ? 1 : 2] += k[i]; }
            f.filter(k);
            auto const m = f.site_counts(); idx_t sum = 0; std::map<int, int> got; auto const fa = f.alias_ids();
            for (idx_t i = 0; i < m.size(); ++i) { sum += m[i]; got[fa[i]] += m[i]; }
            w.check(sum == left[0] + left[1] + left[2] && got[1] == left[0] && got[0] == left[1] && got[2] == left[2], "filter", [&] { return str("keeping the sites ", keep); });
        }
        w.distinct(pbv::mix(static_cast<pbv::u64>(mask), 99)); w.count("restored");
    }
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per system of the zoo, stored and restored twice, with every single-length corruption of its lists; plus every way to add the sites of a block list in pieces; distinct = different systems";
    info.states = "distinct"; info.transitions = "restored"; info.traces = "systems";
    info.assumptions = {"no two families join the same pair of sites inside the system (the connectivity matrix holds one family per pair)", "the Python layer stores exactly the values used here (cppmodule/src/system.cpp)"};
    return pbv::run(argc, argv, "C20", info, [](pbv::Worker& w) {
        zoo(w, w.ctx.thorough(), w.ctx.thorough() ? 5 : 4, [&](ZooBase const&, cpb::Model& m) { check(w, m); });
        splits(w, w.ctx.thorough());
    });
}
