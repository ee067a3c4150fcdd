// Enumeration of lattice definitions within bounds
#pragma once
#include "ref.hpp"

namespace gen {

using namespace ref;

struct Candidate { Index3D rel; int from, to; };

/// All possible hopping terms, in both directions
inline std::vector<Candidate> candidates(int ndim, int reach, int nsub, bool both_directions = true) {
    std::vector<Candidate> r;
    auto const lim = [&](int d) { return d < ndim ? reach : 0; };
    for (int x = -lim(0); x <= lim(0); ++x) { for (int y = -lim(1); y <= lim(1); ++y) { for (int z = -lim(2); z <= lim(2); ++z) {
        for (int a = 0; a < nsub; ++a) { for (int b = 0; b < nsub; ++b) {
            Index3D const rel(x, y, z);
            if (rel == Index3D(0, 0, 0) && a == b) { continue; }
            if (!both_directions && (a > b || (a == b && std::make_tuple(x, y, z) < std::make_tuple(0, 0, 0)))) { continue; }
            r.push_back({rel, a, b});
        } }
    } } }
    return r;
}
inline bool same_bond(Candidate const& a, Candidate const& b) {
    return (a.rel == b.rel && a.from == b.from && a.to == b.to) || (a.rel == -b.rel && a.from == b.to && a.to == b.from);
}
/// Call f(vector of candidate indices) for every set of up to `most` different bonds
template<class F> void subsets(std::vector<Candidate> const& c, int least, int most, F f) {
    std::vector<int> now;
    std::function<void(int)> go = [&](int from) {
        if (static_cast<int>(now.size()) >= least) { f(now); }
        if (static_cast<int>(now.size()) == most) { return; }
        for (int i = from; i < static_cast<int>(c.size()); ++i) {
            bool ok = true; for (int j : now) { ok = ok && !same_bond(c[i], c[j]); }
            if (!ok) { continue; }
            now.push_back(i); go(i + 1); now.pop_back();
        }
    };
    go(0);
}

inline std::vector<Cartesian> vectors(int ndim, int shape = 0) {
    // 0: skewed, 1: orthogonal
    if (shape == 0) {
        std::vector<Cartesian> v{{1, 0, 0}, {0.25f, 1.25f, 0}, {0.125f, 0.25f, 1.5f}};
        v.resize(ndim); return v;
    }
    std::vector<Cartesian> v{{1, 0, 0}, {0, 1.5f, 0}, {0, 0, 2}};
    v.resize(ndim); return v;
}
inline char const* sub_names[] = {"A", "B", "C", "D"};
inline Cartesian sub_position(int s) { return Cartesian(0.125f * static_cast<float>(s), 0.0625f * static_cast<float>(s * s), 0); }
/// A sublattice layout: orbital counts, and which entries are aliases (original index, or -1)
struct Layout { std::vector<int> norb, alias_of; };
inline Spec with_layout(int ndim, Layout const& l, Onsite onsite, int vec = 0) {
    Spec s; s.vectors = vectors(ndim, vec);
    for (size_t i = 0; i < l.norb.size(); ++i) {
        if (l.alias_of[i] >= 0) { s.alias(sub_names[i], l.alias_of[i], sub_position(static_cast<int>(i))); }
        else { s.sub(sub_names[i], sub_position(static_cast<int>(i)), onsite_energy(static_cast<int>(i), l.norb[i], onsite)); }
    }
    return s;
}
inline void add_terms(Spec& s, std::vector<Candidate> const& c, std::vector<int> const& set, bool cplx) {
    int n = 0;
    for (int i : set) {
        auto const& t = c[i];
        s.hop(t.rel, t.from, t.to, str("t", n), hop_energy(n, s.norb(t.from), s.norb(t.to), cplx)); ++n;
    }
}
/// All layouts of exactly n sublattices with these orbital counts; with aliases when asked
inline std::vector<Layout> layouts(int n, std::vector<int> const& orbitals, bool aliases) {
    std::vector<Layout> r{{}};
    for (int i = 0; i < n; ++i) {
        std::vector<Layout> next;
        for (auto& l : r) {
            for (int o : orbitals) { auto x = l; x.norb.push_back(o); x.alias_of.push_back(-1); next.push_back(x); }
            if (aliases) { for (int j = 0; j < i; ++j) { { auto x = l; x.norb.push_back(l.norb[j]); x.alias_of.push_back(j); next.push_back(x); } } }
        }
        r = next;
    }
    return r;
}
} // namespace gen
