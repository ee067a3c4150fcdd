// Reference model: a tight-binding structure as plain lists of labelled sites and bonds, built directly from a
// description of the lattice, with no code shared with pybinding (only its value types and Eigen's dense matrices).
#pragma once
#include "Model.hpp"
#include "system/Foundation.hpp"
#include "pbv.hpp"

#include <Eigen/Dense>

namespace ref {

using cpb::Cartesian; using cpb::Index3D; using cpb::MatrixXcd; using cpb::idx_t;
using cd = std::complex<double>;
using pbv::str;

// ------------------------------------------------------------------------------------------------ description

struct Sub { std::string name; Cartesian pos; MatrixXcd energy; int original; };   // original: own index, or the entry which this is an alias of
struct Term { Index3D rel; int from, to; std::string family; MatrixXcd energy; };

struct Spec {
    std::vector<Cartesian> vectors;
    std::vector<Sub> subs;
    std::vector<Term> terms;
    Cartesian offset = {0, 0, 0};
    int min_neighbors = 1;
    bool anonymous = false;          // define the hoppings by energy only

    int ndim() const { return static_cast<int>(vectors.size()); }
    int norb(int s) const { return static_cast<int>(subs[s].energy.rows()); }
    int sub(std::string name, Cartesian p, MatrixXcd e) {
        subs.push_back({name, p, e, static_cast<int>(subs.size())}); return static_cast<int>(subs.size()) - 1;
    }
    int alias(std::string name, int of, Cartesian p) {
        subs.push_back({name, p, subs[of].energy, of}); return static_cast<int>(subs.size()) - 1;
    }
    void hop(Index3D rel, int from, int to, std::string family, MatrixXcd e) { terms.push_back({rel, from, to, family, e}); }
    std::string family_of(int s) const { while (subs[s].original != s) { s = subs[s].original; } return subs[s].name; }
    Cartesian position(Index3D cell, int s) const {
        Cartesian p = offset + subs[s].pos;
        for (int d = 0; d < ndim(); ++d) { p += static_cast<float>(cell[d]) * vectors[d]; }
        return p;
    }
    bool any_complex() const {
        for (auto& s : subs) { if (s.energy.imag().cwiseAbs().maxCoeff() > 0) { return true; } }
        for (auto& t : terms) { if (t.energy.imag().cwiseAbs().maxCoeff() > 0) { return true; } }
        return false;
    }
};

inline std::string text(MatrixXcd const& m) {
    std::ostringstream o; o << "[";
    for (idx_t i = 0; i < m.rows(); ++i) {
        for (idx_t j = 0; j < m.cols(); ++j) {
            if (j) { o << " "; }
            o << m(i, j).real(); if (m(i, j).imag() != 0) { o << (m(i, j).imag() > 0 ? "+" : "") << m(i, j).imag() << "i"; }
        }
        if (i + 1 < m.rows()) { o << "; "; }
    }
    o << "]"; return o.str();
}
inline std::string text(Cartesian p) { return str("(", p.x(), ",", p.y(), ",", p.z(), ")"); }
inline std::string text(Index3D p) { return str("(", p.x(), ",", p.y(), ",", p.z(), ")"); }
inline std::string text(Spec const& s) {
    std::ostringstream o; o << "lattice";
    for (auto& v : s.vectors) { o << " " << text(v); }
    if (s.offset != Cartesian(0, 0, 0)) { o << " offset " << text(s.offset); }
    if (s.min_neighbors != 1) { o << " min_neighbors " << s.min_neighbors; }
    for (auto& x : s.subs) {
        o << "; " << x.name << " at " << text(x.pos);
        if (&x - s.subs.data() == x.original) { o << " energy " << text(x.energy); } else { o << " alias of " << s.subs[x.original].name; }
    }
    for (auto& t : s.terms) { o << "; hop " << s.subs[t.from].name << "->" << s.subs[t.to].name << text(t.rel) << " " << (s.anonymous ? "" : t.family) << text(t.energy); }
    return o.str();
}

/// The real thing, made through the public interface
inline cpb::Lattice make(Spec const& s) {
    auto l = s.vectors.size() == 1 ? cpb::Lattice(s.vectors[0])
           : s.vectors.size() == 2 ? cpb::Lattice(s.vectors[0], s.vectors[1]) : cpb::Lattice(s.vectors[0], s.vectors[1], s.vectors[2]);
    for (size_t i = 0; i < s.subs.size(); ++i) {
        auto& x = s.subs[i];
        if (x.original == static_cast<int>(i)) { l.add_sublattice(x.name, x.pos, x.energy); }
        else { l.add_alias(x.name, s.subs[x.original].name, x.pos); }
    }
    for (auto& t : s.terms) {
        if (s.anonymous) { l.add_hopping(t.rel, s.subs[t.from].name, s.subs[t.to].name, t.energy); continue; }
        if (l.get_hoppings().count(t.family) == 0) { l.register_hopping_energy(t.family, t.energy); }
        l.add_hopping(t.rel, s.subs[t.from].name, s.subs[t.to].name, t.family);
    }
    if (s.offset != Cartesian(0, 0, 0)) { l.set_offset(s.offset); }
    if (s.min_neighbors != 1) { l.set_min_neighbors(s.min_neighbors); }
    return l;
}

// ------------------------------------------------------------------------------------------------ energies

/// The full Hermitian matrix meant by an onsite energy (Hermitian or upper triangular)
inline MatrixXcd hermitian(MatrixXcd const& e) {
    MatrixXcd r = e;
    for (idx_t i = 0; i < e.rows(); ++i) { for (idx_t j = 0; j < i; ++j) { r(i, j) = std::conj(e(j, i)); } }
    return r;
}
/// Different for every seed, row and column; exact in single precision
inline MatrixXcd hop_energy(int seed, idx_t rows, idx_t cols, bool cplx) {
    MatrixXcd m(rows, cols);
    for (idx_t i = 0; i < rows; ++i) { for (idx_t j = 0; j < cols; ++j) {
        double const v = 1 + seed * 12 + double(i) * 4 + double(j);
        m(i, j) = cd(v / 8, cplx ? (v + 0.5) / 16 : 0);
    } }
    return m;
}
enum Onsite { zero, diagonal, full_real, full_complex, upper_real, upper_complex };
inline MatrixXcd onsite_energy(int seed, idx_t n, Onsite kind) {
    MatrixXcd m = MatrixXcd::Zero(n, n);
    if (kind == zero) { return m; }
    for (idx_t i = 0; i < n; ++i) {
        m(i, i) = -(1 + seed * 4 + double(i)) / 4;
        if (kind == diagonal) { continue; }
        for (idx_t j = i + 1; j < n; ++j) {
            double const v = 3 + seed * 9 + double(i) * 3 + double(j);
            bool const c = kind == full_complex || kind == upper_complex;
            m(i, j) = cd(v / 32, c ? (v + 1) / 64 : 0);
            if (kind == full_real || kind == full_complex) { m(j, i) = std::conj(m(i, j)); }
        }
    }
    return m;
}

// ------------------------------------------------------------------------------------------------ structure

struct Site { std::string family; Cartesian pos; MatrixXcd onsite; Index3D cell; int sub; bool alive; };
/// The block (a, b) of the Hamiltonian gets `energy` times the phase of going from `a` to the copy of `b` which is moved by `shift`
struct Bond { int a, b; std::string family; MatrixXcd energy; Cartesian shift; Index3D crossed; };

struct System {
    std::vector<Site> sites;
    std::vector<Bond> bonds;

    int find(Index3D cell, int sub) const {
        for (size_t i = 0; i < sites.size(); ++i) { if (sites[i].sub == sub && sites[i].cell == cell) { return static_cast<int>(i); } }
        return -1;
    }
    int num_sites() const { int n = 0; for (auto& s : sites) { n += s.alive; } return n; }
};

/// Every bond of the lattice between two of the listed (live) sites of a finite structure
inline void connect(System& s, Spec const& spec) {
    std::map<std::tuple<int, int, int, int>, int> at;
    for (size_t i = 0; i < s.sites.size(); ++i) {
        auto& x = s.sites[i]; if (x.alive && x.sub >= 0) { at[std::make_tuple(x.cell[0], x.cell[1], x.cell[2], x.sub)] = static_cast<int>(i); }
    }
    for (auto& p : at) {
        auto const& x = s.sites[p.second];
        for (auto& t : spec.terms) {
            if (t.from != x.sub) { continue; }
            Index3D const c = x.cell + t.rel;
            auto const it = at.find(std::make_tuple(c[0], c[1], c[2], t.to));
            if (it != at.end()) { s.bonds.push_back({p.second, it->second, t.family, t.energy, Cartesian(0, 0, 0), Index3D(0, 0, 0)}); }
        }
    }
}
inline int floor_div(int a, int b) { int q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) { --q; } return q; }

/// The same with the structure repeated every `period` cells in the periodic directions (period 0: not periodic);
/// `left` is the first cell of the repeated part
inline void connect_periodic(System& s, Spec const& spec, Index3D left, Index3D period) {
    std::map<std::tuple<int, int, int, int>, int> at;
    for (size_t i = 0; i < s.sites.size(); ++i) {
        auto& x = s.sites[i]; if (x.alive && x.sub >= 0) { at[std::make_tuple(x.cell[0], x.cell[1], x.cell[2], x.sub)] = static_cast<int>(i); }
    }
    for (auto& p : at) {
        auto const& x = s.sites[p.second];
        for (auto& t : spec.terms) {
            if (t.from != x.sub) { continue; }
            Index3D c = x.cell + t.rel, crossed(0, 0, 0); Cartesian shift(0, 0, 0);
            for (int d = 0; d < spec.ndim(); ++d) {
                if (period[d] == 0) { continue; }
                crossed[d] = floor_div(c[d] - left[d], period[d]);
                c[d] -= crossed[d] * period[d];
                shift += static_cast<float>(crossed[d] * period[d]) * spec.vectors[d];
            }
            auto const it = at.find(std::make_tuple(c[0], c[1], c[2], t.to));
            if (it != at.end()) { s.bonds.push_back({p.second, it->second, t.family, t.energy, shift, crossed}); }
        }
    }
}

inline Site lattice_site(Spec const& spec, Index3D cell, int sub) {
    return {spec.family_of(sub), spec.position(cell, sub), hermitian(spec.subs[sub].energy), cell, sub, true};
}

/// A block of unit cells
inline std::vector<Site> block_sites(Spec const& spec, Index3D first, Index3D size) {
    std::vector<Site> r;
    for (int s = 0; s < static_cast<int>(spec.subs.size()); ++s) {
        for (int z = 0; z < size[2]; ++z) { for (int y = 0; y < size[1]; ++y) { for (int x = 0; x < size[0]; ++x) {
            r.push_back(lattice_site(spec, first + Index3D(x, y, z), s));
        } } }
    }
    return r;
}
/// The documented position of a primitive block: centred on the origin cell
inline Index3D primitive_first(Index3D size) { return Index3D(-(size[0] / 2), -(size[1] / 2), -(size[2] / 2)); }

inline void erase_dead_bonds(System& s) {
    s.bonds.erase(std::remove_if(s.bonds.begin(), s.bonds.end(), [&](Bond const& b) { return !s.sites[b.a].alive || !s.sites[b.b].alive; }), s.bonds.end());
}

// ------------------------------------------------------------------------------------------------ comparison

inline bool close(Cartesian a, Cartesian b) { return (a - b).norm() < 2e-3f; }

/// The sublattice name and position of every site of the real system
struct RealSite { std::string family; Cartesian pos; idx_t norb; };
inline std::vector<RealSite> real_sites(cpb::System const& s) {
    std::vector<RealSite> r;
    for (auto const& sub : s.compressed_sublattices) {
        for (auto i = sub.sys_start(); i < sub.sys_end(); ++i) {
            if (i >= s.num_sites()) { r.push_back({"more sublattice entries than positions", Cartesian(0, 0, 0), sub.num_orbitals()}); continue; }
            r.push_back({s.site_registry.name(sub.id()), Cartesian(s.positions[i]), sub.num_orbitals()});
        }
    }
    return r;
}

inline std::string list(std::vector<RealSite> const& v) {
    std::ostringstream o; for (size_t i = 0; i < v.size() && i < 12; ++i) { o << " " << v[i].family << text(v[i].pos); } if (v.size() > 12) { o << " ..."; } return o.str();
}

/// Match the live reference sites with the real ones. Returns the real index of every reference site (or an empty vector after a violation).
inline std::vector<int> match_sites(pbv::Worker& w, cpb::System const& s, System const& r, char const* key = "sites") {
    auto const real = real_sites(s);
    std::vector<int> map(r.sites.size(), -1);
    auto const n = r.num_sites();
    if (!w.check(static_cast<int>(real.size()) == s.num_sites() && s.num_sites() == n, key, [&] {
            return str("the system has ", s.num_sites(), " positions and ", real.size(), " sublattice entries, expected ", n, " sites; found", list(real)); })) { return {}; }
    std::vector<char> used(real.size(), 0);
    // exact-position buckets would be faster, but the structures are small
    for (size_t i = 0; i < r.sites.size(); ++i) {
        if (!r.sites[i].alive) { continue; }
        for (size_t j = 0; j < real.size(); ++j) {
            if (!used[j] && real[j].family == r.sites[i].family && real[j].norb == r.sites[i].onsite.rows() && close(real[j].pos, r.sites[i].pos)) { used[j] = 1; map[i] = static_cast<int>(j); break; }
        }
        if (!w.check(map[i] >= 0, key, [&] { return str("no site ", r.sites[i].family, " at ", text(r.sites[i].pos), "; found", list(real)); })) { return {}; }
    }
    return map;
}

/// Compare the bonds (inside the system, or of its boundaries) with the reference, as sets
inline bool match_bonds(pbv::Worker& w, cpb::System const& s, System const& r, std::vector<int> const& map) {
    // a bond: (row, col, family, shift in units of 1e-2), in a canonical direction: the direction matters for the energy, which the Hamiltonian shows
    using Key = std::tuple<int, int, std::string, long, long, long>;
    auto const q = [](float v) { return std::lround(v * 100); };
    auto const canonical = [](int a, int b, std::string f, long x, long y, long z) { return std::min(Key(a, b, f, x, y, z), Key(b, a, f, -x, -y, -z)); };
    std::map<Key, int> want, have;
    for (auto& b : r.bonds) {
        if (!r.sites[b.a].alive || !r.sites[b.b].alive) { continue; }
        auto const c = b.shift;
        ++want[canonical(map[b.a], map[b.b], b.family, q(c.x()), q(c.y()), q(c.z()))];
    }
    auto const add = [&](cpb::HoppingBlocks const& h, Cartesian shift) {
        for (auto const& block : h) {
            auto const name = s.hopping_registry.name(block.family_id());
            for (auto const& coo : block.coordinates()) { ++have[canonical(coo.row, coo.col, name, q(-shift.x()), q(-shift.y()), q(-shift.z()))]; }
        }
    };
    add(s.hopping_blocks, Cartesian(0, 0, 0));
    for (auto const& b : s.boundaries) { add(b.hopping_blocks, b.shift); }
    if (want == have) { w.count("checks"); return true; }
    std::ostringstream o;
    auto const show = [&](Key const& k) { o << "(" << std::get<0>(k) << "," << std::get<1>(k) << " " << std::get<2>(k) << " shift " << std::get<3>(k) / 100.0 << "," << std::get<4>(k) / 100.0 << "," << std::get<5>(k) / 100.0 << ")"; };
    for (auto& p : want) { auto it = have.find(p.first); int h = it == have.end() ? 0 : it->second; if (h != p.second) { o << " bond "; show(p.first); o << " expected " << p.second << " times, found " << h << ";"; } }
    for (auto& p : have) { if (!want.count(p.first)) { o << " bond "; show(p.first); o << " not expected, found " << p.second << " times;"; } }
    w.check(false, "bonds", [&] { return o.str(); });
    return false;
}

/// Orbital offset of every real site, counted by hand
inline std::vector<int> orbital_offsets(cpb::System const& s, int& size) {
    std::vector<int> r; size = 0;
    for (auto& x : real_sites(s)) { r.push_back(size); size += static_cast<int>(x.norb); }
    return r;
}

/// The dense Hamiltonian of the reference in the site order of the real system
inline MatrixXcd dense(cpb::System const& s, System const& r, std::vector<int> const& map, Cartesian k = {0, 0, 0}) {
    int size; auto const offset = orbital_offsets(s, size);
    MatrixXcd h = MatrixXcd::Zero(size, size);
    for (size_t i = 0; i < r.sites.size(); ++i) {
        if (!r.sites[i].alive) { continue; }
        auto const n = r.sites[i].onsite.rows(); auto const o = offset[map[i]];
        h.block(o, o, n, n) += r.sites[i].onsite;
    }
    for (auto& b : r.bonds) {
        if (!r.sites[b.a].alive || !r.sites[b.b].alive) { continue; }
        auto const oa = offset[map[b.a]], ob = offset[map[b.b]];
        // pybinding's convention: H(k) = sum over translations T of H(T) exp(-i k T)
        auto const phase = std::exp(cd(0, -1) * static_cast<double>(k.cast<double>().dot(b.shift.cast<double>())));
        MatrixXcd const e = b.energy * phase;
        h.block(oa, ob, e.rows(), e.cols()) += e;
        h.block(ob, oa, e.cols(), e.rows()) += e.adjoint();
    }
    return h;
}

// ------------------------------------------------------------------------------------------------ reading results

struct Dense { MatrixXcd m; bool is_complex, is_double, valid; std::string problem; };
namespace detail {
    template<class S> Dense to_dense(cpb::SparseMatrixX<S> const& m) {
        Dense d{MatrixXcd::Zero(m.rows(), m.cols()), cpb::num::is_complex<S>(), sizeof(S) == (cpb::num::is_complex<S>() ? 16 : 8), true, ""};
        if (!m.isCompressed()) { d.valid = false; d.problem = "not compressed"; return d; }
        auto const* outer = m.outerIndexPtr(); auto const* inner = m.innerIndexPtr();
        for (idx_t i = 0; i < m.rows(); ++i) {
            for (auto n = outer[i]; n < outer[i + 1]; ++n) {
                if (inner[n] < 0 || inner[n] >= m.cols()) { d.valid = false; d.problem = "column out of range"; return d; }
                if (n > outer[i] && inner[n] <= inner[n - 1]) { d.valid = false; d.problem = str("row ", i, ": columns not increasing"); return d; }
                d.m(i, inner[n]) += cd(m.valuePtr()[n]);
            }
        }
        return d;
    }
}
struct ToDense { template<class S> Dense operator()(cpb::SparseMatrixRC<S> const& p) const { return detail::to_dense<S>(*p); } };
inline Dense dense(cpb::Hamiltonian const& h) { return cpb::var::apply_visitor(ToDense(), h.get_variant()); }

inline double difference(MatrixXcd const& a, MatrixXcd const& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) { return 1e300; }
    return a.size() == 0 ? 0 : (a - b).cwiseAbs().maxCoeff();
}

inline std::string where(MatrixXcd const& got, MatrixXcd const& want) {
    if (got.rows() != want.rows() || got.cols() != want.cols()) { return str("size is ", got.rows(), "x", got.cols(), ", expected ", want.rows(), "x", want.cols()); }
    idx_t bi = 0, bj = 0; double worst = -1;
    for (idx_t i = 0; i < got.rows(); ++i) { for (idx_t j = 0; j < got.cols(); ++j) { auto const d = std::abs(got(i, j) - want(i, j)); if (!(d <= worst)) { worst = d; bi = i; bj = j; } } }
    return str("element (", bi, ",", bj, ") is ", got(bi, bj), ", expected ", want(bi, bj));
}

/// The complete comparison of a built model. Returns false after a violation.
inline bool match_model(pbv::Worker& w, cpb::Model const& m, System const& r, Cartesian k = {0, 0, 0}, double tolerance = 0, bool bonds = true) {
    auto const& s = *m.system();
    auto const map = match_sites(w, s, r);
    if (map.empty() && r.num_sites() > 0) { return false; }
    if (bonds && !match_bonds(w, s, r, map)) { return false; }
    auto const d = dense(m.hamiltonian());
    if (!w.check(d.valid, "storage", [&] { return d.problem; })) { return false; }
    auto const want = dense(s, r, map, k);
    if (!w.check(difference(d.m, want) <= tolerance, "hamiltonian", [&] { return where(d.m, want); })) { return false; }
    return w.check(difference(d.m, d.m.adjoint()) <= tolerance * 1e-3, "hermitian", [&] { return std::string("the Hamiltonian is not Hermitian"); });
}

/// Did it throw? (any exception derived from std::exception)
template<class F> std::string thrown(F f) { try { f(); } catch (std::exception const& e) { return std::string("exception: ") + e.what(); } return ""; }

} // namespace ref
