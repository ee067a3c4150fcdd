// C02: Bloch Hamiltonian of periodic systems -- every lattice definition and period within bounds, on the real code
#include "enumerate.hpp"
using namespace gen;

namespace {

struct Setup { Index3D block; Index3D period; };   // period in cells, 0: not periodic in this direction

std::string text_of(Setup const& s) { return str("block ", text(s.block), " period ", text(s.period)); }

std::vector<Cartesian> wave_vectors(bool deep) {
    std::vector<Cartesian> k{{0, 0, 0}, {0.7f, -1.3f, 0.4f}, {3.1f, 0.2f, -0.9f}, {1024, -512, 256}, {1024.0078125f, -512, 256}};   // the last two: close, but not the same
    if (deep) { k.push_back({-2.2f, 1.6f, 1.1f}); k.push_back({0, 2.5f, 0}); }
    return k;
}

void check(pbv::Worker& w, Spec const& spec, std::vector<Setup> const& setups) {
    auto const lattice = make(spec);
    auto const deep = w.ctx.thorough();
    for (auto const& set : setups) {
        w.note(text_of(set));
        float len[3] = {-1, -1, -1};
        for (int d = 0; d < spec.ndim(); ++d) {
            if (set.period[d] == 1) { len[d] = 0; }                      // automatic
            else if (set.period[d] > 1) { len[d] = static_cast<float>(set.period[d]) * spec.vectors[d].norm(); }
        }
        cpb::Model model(lattice, cpb::Primitive(set.block[0], set.block[1], set.block[2]), cpb::TranslationalSymmetry(len[0], len[1], len[2]));
        auto const& real = *model.system();

        // the repeated part is the window of one period which starts at the first cell found
        System r; r.sites = block_sites(spec, primitive_first(set.block), set.block);
        auto const rs = real_sites(real);
        Index3D left(1000, 1000, 1000);
        for (auto& x : r.sites) { for (auto& y : rs) { if (x.family == y.family && close(x.pos, y.pos)) { left = left.cwiseMin(x.cell); } } }
        for (auto& x : r.sites) {
            for (int d = 0; d < spec.ndim(); ++d) {
                if (set.period[d] > 0 && (x.cell[d] < left[d] || x.cell[d] >= left[d] + set.period[d])) { x.alive = false; }
            }
        }
        for (int d = 0; d < spec.ndim(); ++d) {
            if (set.period[d] > 0 && set.period[d] <= set.block[d]) {
                w.check(left[d] + set.period[d] <= primitive_first(set.block)[d] + set.block[d], "window", [&] { return str("the repeated part starts at cell ", text(left), " and leaves the block"); });
            }
        }
        connect_periodic(r, spec, left, set.period);
        auto const map = match_sites(w, real, r);
        if (map.empty() || !match_bonds(w, real, r, map)) { return; }
        auto const ks = wave_vectors(deep);
        // the order of the wave vectors must not matter
        for (int n : deep ? std::vector<int>{0, 1, 2, 5, 6, 3, 4, 1, 0} : std::vector<int>{0, 1, 2, 1, 3, 4}) {
            w.note(text_of(set) + str(" wave vector ", text(ks[n])));
            model.set_wave_vector(ks[n]);
            auto const d = dense(model.hamiltonian());
            if (!w.check(d.valid && d.is_complex && !d.is_double, "type", [&] { return str("expected a complex single precision matrix ", d.problem); })) { return; }
            auto const want = dense(real, r, map, ks[n]);
            if (!w.check(difference(d.m, want) < 1e-4 * (1 + want.cwiseAbs().maxCoeff()), "hamiltonian", [&] { return str("wave vector ", text(ks[n]), ": ", where(d.m, want)); })) { return; }
            if (!w.check(difference(d.m, d.m.adjoint()) == 0, "hermitian", [&] { return std::string("the Hamiltonian is not Hermitian"); })) { return; }
            w.check(&real == &*model.system(), "structure", [&] { return std::string("the wave vector changed the structure"); });
            w.count("matrices");
            auto h = pbv::mix(static_cast<pbv::u64>(d.m.rows()), 1);
            for (idx_t i = 0; i < d.m.size(); ++i) { h = pbv::mix(h, pbv::hash(str(d.m.data()[i]))); }
            w.distinct(h);
        }
        w.count("models");
    }
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per lattice definition, each built with several periodic directions, periods, block sizes and sequences of wave vectors; distinct = different matrices";
    info.states = "distinct"; info.transitions = "matrices"; info.traces = "models";
    info.assumptions = {"Bloch phases are compared to single precision accuracy"};
    return pbv::run(argc, argv, "C02", info, [](pbv::Worker& w) {
        auto const deep = w.ctx.thorough();
        auto const each = [&](int ndim, int reach, Layout const& l, Onsite onsite, bool cplx, int least, int most, bool both, std::vector<Setup> const& setups, int vec = 0) {
            auto const c = candidates(ndim, reach, static_cast<int>(l.norb.size()), both);
            subsets(c, least, most, [&](std::vector<int> const& set) {
                auto s = [&] { auto s = with_layout(ndim, l, onsite, vec); add_terms(s, c, set, cplx); return s; };
                if (w.next([&] { return text(s()) + str("; ", setups.size(), " setups"); })) { check(w, s(), setups); }
            });
        };
        std::vector<Setup> one, two, two_far, three;
        for (int b = 1; b <= (deep ? 7 : 5); ++b) { for (int p = 1; p <= (deep ? 7 : 5); ++p) { one.push_back({{b, 1, 1}, {p, 0, 0}}); } }
        for (int bx = 1; bx <= 3; ++bx) { for (int by = 1; by <= 3; ++by) { for (int px = 0; px <= 3; ++px) { for (int py = 0; py <= 3; ++py) {
            if (px == 0 && py == 0) { continue; }
            if (!deep && (bx == 3 || by == 3) && (bx + by) % 2) { continue; }
            two.push_back({{bx, by, 1}, {px, py, 0}});
            if (px <= bx && py <= by && px != 1 && py != 1) { two_far.push_back({{bx, by, 1}, {px, py, 0}}); }
        } } } }
        for (int bits = 1; bits < 8; ++bits) {
            for (int size = 1; size <= (deep ? 3 : 2); ++size) {
                three.push_back({{size, size, size}, {bits & 1 ? size : 0, bits & 2 ? size : 0, bits & 4 ? size : 0}});
                three.push_back({{2, 1, 2}, {bits & 1 ? 2 : 0, bits & 2 ? 1 : 0, bits & 4 ? 2 : 0}});
            }
        }
        // one dimension: hoppings that reach over up to 3 cells
        for (int nsub = 1; nsub <= 2; ++nsub) {
            for (auto& l : layouts(nsub, {1, 2}, true)) {
                for (int cplx = 0; cplx <= 1; ++cplx) { each(1, 3, l, full_complex, cplx, 0, nsub == 1 ? 3 : deep ? 2 : 1, true, one); }
                if (!deep && nsub == 2) { each(1, 2, l, full_complex, true, 2, 2, false, one); }
            }
        }
        // two dimensions
        for (int nsub = 1; nsub <= 2; ++nsub) {
            for (auto& l : layouts(nsub, {1, 2}, true)) {
                for (int cplx = 0; cplx <= 1; ++cplx) {
                    each(2, 1, l, diagonal, cplx, 0, nsub == 1 ? 2 : 1, true, two);
                    if (deep || nsub == 1) { each(2, 2, l, diagonal, cplx, 1, 1, true, two); }
                    else if (cplx && l.norb[0] != l.norb[1]) { each(2, 2, l, diagonal, cplx, 1, 1, false, two_far); }
                }
                if (nsub == 2 && (deep || l.norb[0] != l.norb[1] || l.alias_of[1] >= 0)) { each(2, 1, l, diagonal, true, 2, 2, false, two_far); }
            }
        }
        // three dimensions
        for (int nsub = 1; nsub <= 2; ++nsub) {
            for (auto& l : layouts(nsub, nsub == 1 ? std::vector<int>{1, 2} : std::vector<int>{1}, false)) {
                each(3, 1, l, diagonal, true, 1, nsub == 1 ? 2 : 1, nsub == 1 && deep, three);
                if (deep) { each(3, 2, l, diagonal, true, 1, 1, false, three); }
            }
        }
    });
}
