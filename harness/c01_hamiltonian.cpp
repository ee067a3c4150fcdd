// C01: Hamiltonian of a finite block of unit cells -- every lattice definition within bounds, on the real code
#include "enumerate.hpp"
using namespace gen;

namespace {

std::vector<Index3D> sizes(int ndim, bool deep) {
    std::vector<Index3D> r;
    if (ndim == 1) { for (int i = 1; i <= (deep ? 6 : 4); ++i) { r.push_back({i, 1, 1}); } }
    if (ndim == 2) { r = {{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {3, 2, 1}}; if (deep) { r.push_back({2, 3, 1}); r.push_back({3, 3, 1}); r.push_back({1, 4, 1}); } }
    if (ndim == 3) { r = {{1, 1, 1}, {2, 2, 2}, {1, 2, 3}}; if (deep) { r.push_back({3, 1, 2}); r.push_back({2, 3, 1}); } }
    return r;
}

void check_units(pbv::Worker& w, Spec const& spec, Index3D size);

void check(pbv::Worker& w, Spec const& spec, std::vector<Index3D> const& blocks) {
    auto const lattice = make(spec);
    w.count("definitions");
    for (auto const& size : blocks) {
        w.note(str("block ", text(size)));
        System r; r.sites = block_sites(spec, primitive_first(size), size); connect(r, spec);
        cpb::Model model(lattice, cpb::Primitive(size[0], size[1], size[2]));
        if (!match_model(w, model, r, {0, 0, 0}, 0, !spec.anonymous)) { return; }
        auto const d = dense(model.hamiltonian());
        if (!w.check(d.is_complex == spec.any_complex() && !d.is_double, "type", [&] {
                return str("the element type is ", d.is_complex ? "complex" : "real", " ", d.is_double ? "double" : "single", " but the energies are ", spec.any_complex() ? "complex" : "real"); })) { return; }
        w.count("models");
        w.count("bonds", r.bonds.size());
        auto h = pbv::mix(static_cast<pbv::u64>(d.m.rows()), d.is_complex);
        for (idx_t i = 0; i < d.m.size(); ++i) { h = pbv::mix(h, pbv::hash(str(d.m.data()[i]))); }
        w.distinct(h);
    }
    check_units(w, spec, blocks.back());
}

/// The units do not matter: scaling the lengths and energies scales the positions and the matrix
void check_units(pbv::Worker& w, Spec const& spec, Index3D size) {
    cpb::Model model(make(spec), cpb::Primitive(size[0], size[1], size[2]));
    auto const d = dense(model.hamiltonian());
    struct Unit { int length, energy; };
    for (auto u : {Unit{-33, -63}, Unit{0, -63}, Unit{0, -45}, Unit{24, 40}}) {
        auto s = spec; auto const l = static_cast<float>(std::ldexp(1, u.length)); auto const e = std::ldexp(1, u.energy);
        for (auto& v : s.vectors) { v *= l; }
        for (auto& x : s.subs) { x.pos *= l; x.energy *= e; }
        for (auto& t : s.terms) { t.energy *= e; }
        w.note(str("block ", text(size), " in units of length 2^", u.length, " and energy 2^", u.energy));
        cpb::Model scaled(make(s), cpb::Primitive(size[0], size[1], size[2]));
        auto const n = model.system()->num_sites();
        if (!w.check(scaled.system()->num_sites() == n, "units: sites", [&] { return str(scaled.system()->num_sites(), " sites instead of ", n); })) { return; }
        for (idx_t i = 0; i < n; ++i) {
            Cartesian const a = model.system()->positions[i] * l, b = scaled.system()->positions[i];
            if (!w.check(a == b, "units: position", [&] { return str("site ", i, " at ", text(b), " instead of ", text(a)); })) { return; }
        }
        auto const ds = dense(scaled.hamiltonian());
        if (!w.check(ds.is_complex == d.is_complex && ds.is_double == d.is_double, "units: type", [&] { return str("the element type is ", ds.is_complex ? "complex" : "real"); })) { return; }
        MatrixXcd const want = d.m * e;
        if (!w.check(ds.m == want, "units: hamiltonian", [&] { return "got " + text(ds.m) + ", expected " + text(want); })) { return; }
        w.count("models");
    }
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per lattice definition, each built at several block sizes; distinct = different Hamiltonian matrices";
    info.states = "distinct"; info.transitions = "models"; info.traces = "models";
    info.assumptions = {"energies are exactly representable in single precision, so that matrices are compared exactly"};
    return pbv::run(argc, argv, "C01", info, [](pbv::Worker& w) {
        auto const deep = w.ctx.thorough();
        auto const each = [&](int ndim, int reach, Layout const& l, Onsite onsite, bool cplx, int least, int most, bool both, std::vector<Index3D> const& blocks, bool anonymous) {
            auto const c = candidates(ndim, reach, static_cast<int>(l.norb.size()), both);
            subsets(c, least, most, [&](std::vector<int> const& set) {
                auto s = [&] { auto s = with_layout(ndim, l, onsite); add_terms(s, c, set, cplx); s.anonymous = anonymous; return s; };
                if (w.next([&] { return text(s()); })) { check(w, s(), blocks); }
            });
        };
        // one and two sublattices with every set of up to 2 (3) bonds
        for (int ndim = 1; ndim <= 3; ++ndim) {
            for (int nsub = 1; nsub <= 2; ++nsub) {
                for (auto& l : layouts(nsub, ndim == 1 ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2}, true)) {
                    for (int cplx = 0; cplx <= 1; ++cplx) {
                        auto const most = ndim == 1 ? (deep ? 4 : 3) : ndim == 2 ? (deep && nsub == 1 ? 4 : deep ? 3 : 2) : (deep ? 2 : 1);
                        if (ndim == 2 && nsub == 2 && most == 3) {   // the biggest family: bonds in one direction only beyond pairs
                            each(ndim, 1, l, diagonal, cplx, 0, 2, true, sizes(ndim, deep), false);
                            each(ndim, 1, l, diagonal, cplx, 3, 3, false, sizes(ndim, false), false);
                        } else {
                            each(ndim, ndim == 1 ? 2 : 1, l, diagonal, cplx, 0, most, ndim > 1 || nsub == 1 || deep, sizes(ndim, deep), false);
                        }
                    }
                }
            }
        }
        // every kind of onsite energy, with three orbitals
        for (int nsub = 1; nsub <= 2; ++nsub) {
            for (auto& l : layouts(nsub, {1, 2, 3}, true)) {
                for (int onsite = zero; onsite <= upper_complex; ++onsite) {
                    for (int cplx = 0; cplx <= 1; ++cplx) { each(1, 1, l, static_cast<Onsite>(onsite), cplx, 0, 2, true, {{1, 1, 1}, {3, 1, 1}}, false); }
                }
            }
        }
        // three sublattices with any mixture of orbital counts and aliases
        for (auto& l : layouts(3, {1, 2, 3}, true)) {
            for (int cplx = 0; cplx <= 1; ++cplx) { each(1, 1, l, full_complex, cplx, 0, deep ? 3 : 2, false, {{1, 1, 1}, {3, 1, 1}}, false); }
            each(2, 1, l, diagonal, true, 1, deep ? 2 : 1, true, {{2, 3, 1}}, false);
        }
        if (deep) { for (auto& l : layouts(4, {1, 2}, true)) { each(1, 1, l, full_complex, true, 0, 2, false, {{2, 1, 1}}, false); } }
        // hoppings given by energy only, and families shared by several bonds
        for (auto& l : layouts(2, {1, 2}, true)) {
            for (int cplx = 0; cplx <= 1; ++cplx) {
                each(1, 2, l, zero, cplx, 1, 2, true, sizes(1, deep), true);
                auto const c = candidates(2, 1, 2, false);
                subsets(c, 2, deep ? 4 : 3, [&](std::vector<int> const& set) {
                    if (l.norb[0] != l.norb[1]) { return; }
                    for (int anonymous = 0; anonymous <= 1; ++anonymous) {
                        auto s = [&] {
                            auto s = with_layout(2, l, zero); s.anonymous = anonymous;
                            int n = 0; for (int i : set) { s.hop(c[i].rel, c[i].from, c[i].to, str("t", n / 2), hop_energy(n / 2, l.norb[0], l.norb[0], cplx)); ++n; }
                            return s;
                        };
                        if (w.next([&] { return "shared families: " + text(s()); })) {
                            auto spec = s();
                            if (anonymous) {   // the name is whatever the library chose; compare energies only
                                cpb::Model model(make(spec), cpb::Primitive(2, 3, 1));
                                System r; r.sites = block_sites(spec, primitive_first({2, 3, 1}), {2, 3, 1}); connect(r, spec);
                                match_model(w, model, r, {0, 0, 0}, 0, false); w.count("models");
                                w.check(model.get_lattice().nhop() == static_cast<int>((set.size() + 1) / 2), "anonymous", [&] { return str("equal energies do not share a family: ", model.get_lattice().nhop()); });
                            } else { check(w, spec, {{2, 3, 1}, {1, 1, 1}}); }
                        }
                    }
                });
            }
        }
    });
}
