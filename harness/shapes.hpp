// Lattices, shapes and an independent carving procedure
#pragma once
#include "enumerate.hpp"

namespace gen {

inline MatrixXcd scalar(double v, double im = 0) { return MatrixXcd::Constant(1, 1, cd(v, im)); }

struct Named { std::string name; Spec spec; };

inline Spec chain() { Spec s; s.vectors = {{1, 0, 0}}; s.sub("A", {0, 0, 0}, scalar(0.5)); s.hop({1, 0, 0}, 0, 0, "t", scalar(1)); return s; }
inline Spec dimer_chain() {
    Spec s; s.vectors = {{1, 0, 0}}; s.sub("A", {-0.125f, 0, 0}, scalar(0.5)); s.sub("B", {0.4375f, 0, 0}, scalar(-1));
    s.hop({0, 0, 0}, 0, 1, "t", scalar(1)); s.hop({1, 0, 0}, 1, 0, "u", scalar(2, 0.5)); s.hop({2, 0, 0}, 0, 0, "v", scalar(3)); return s;
}
inline Spec square() { Spec s; s.vectors = {{1, 0, 0}, {0, 1, 0}}; s.sub("A", {0, 0, 0}, scalar(0.5)); s.hop({1, 0, 0}, 0, 0, "x", scalar(1)); s.hop({0, 1, 0}, 0, 0, "y", scalar(2, 1)); return s; }
inline Spec square_far() { auto s = square(); s.hop({1, -1, 0}, 0, 0, "d", scalar(4)); s.hop({2, 0, 0}, 0, 0, "f", scalar(5)); return s; }
inline Spec honeycomb() {
    Spec s; s.vectors = {{1, 0, 0}, {0.5f, 0.875f, 0}}; s.sub("A", {0, -0.28125f, 0}, scalar(0)); s.sub("B", {0, 0.28125f, 0}, scalar(1));
    s.hop({0, 0, 0}, 0, 1, "t", scalar(1, 0.25)); s.hop({1, -1, 0}, 0, 1, "t", scalar(1, 0.25)); s.hop({0, -1, 0}, 0, 1, "t", scalar(1, 0.25)); return s;
}
/// 4-atom cell with aliases, and orbitals
inline Spec supercell() {
    Spec s; s.vectors = {{1, 0, 0}, {0, 1.75f, 0}};
    s.sub("A", {0, -0.28125f, 0}, onsite_energy(0, 2, diagonal)); s.sub("B", {0, 0.28125f, 0}, onsite_energy(1, 1, diagonal));
    s.alias("A2", 0, {0.5f, 0.59375f, 0}); s.alias("B2", 1, {0.5f, -0.59375f, 0});
    auto const e = hop_energy(1, 2, 1, true);
    s.hop({0, 0, 0}, 0, 1, "t", e); s.hop({0, 0, 0}, 2, 1, "t", e); s.hop({0, 0, 0}, 0, 3, "t", e);
    s.hop({-1, 0, 0}, 0, 3, "t", e); s.hop({1, 0, 0}, 2, 1, "t", e); s.hop({0, 1, 0}, 2, 3, "t", e); return s;
}
/// Vectors at an obtuse angle, left-handed, sublattices outside the first cell
inline Spec oblique() {
    Spec s; s.vectors = {{-0.375f, 1, 0}, {1.25f, 0.25f, 0}}; s.sub("A", {0.875f, 0.4375f, 0}, scalar(0)); s.sub("B", {-0.625f, 0.25f, 0}, scalar(1));
    s.hop({0, 0, 0}, 0, 1, "t", scalar(1)); s.hop({1, 0, 0}, 0, 0, "u", scalar(2, 1)); s.hop({-1, 1, 0}, 1, 0, "v", scalar(3)); s.hop({0, 2, 0}, 1, 1, "w", scalar(4)); return s;
}
inline Spec no_hoppings() { Spec s; s.vectors = {{1, 0, 0}, {0.25f, 1, 0}}; s.sub("A", {0.25f, 0, 0}, scalar(1)); s.sub("B", {0, 0.5f, 0}, scalar(2)); return s; }
/// one sublattice without hoppings, the other one connected in one direction only
inline Spec rows() { Spec s; s.vectors = {{1, 0, 0}, {0, 1, 0}}; s.sub("A", {0, 0, 0}, scalar(1)); s.sub("B", {0.5f, 0.5f, 0}, scalar(2)); s.hop({1, 0, 0}, 0, 0, "x", scalar(1)); return s; }
inline Spec cubic() {
    Spec s; s.vectors = {{1, 0, 0}, {0.25f, 1, 0}, {0, 0.125f, 1.125f}}; s.sub("A", {0, 0, 0}, scalar(0)); s.sub("B", {0.5f, 0.5f, 0.5f}, scalar(1));
    s.hop({0, 0, 0}, 0, 1, "t", scalar(1)); s.hop({0, 0, 1}, 0, 0, "z", scalar(2, 1)); s.hop({-1, 0, 0}, 1, 0, "x", scalar(3)); s.hop({0, 1, -1}, 1, 1, "y", scalar(4)); return s;
}
/// an explicitly three-dimensional stacking in two dimensions
inline Spec bilayer() {
    Spec s; s.vectors = {{1, 0, 0}, {0.5f, 0.875f, 0}}; s.sub("A", {0, 0, 0}, scalar(0)); s.sub("B", {0.125f, 0.1875f, 1}, onsite_energy(2, 2, full_complex));
    s.hop({1, 0, 0}, 0, 0, "t", scalar(1)); s.hop({0, 0, 0}, 0, 1, "p", hop_energy(1, 1, 2, true)); s.hop({0, 1, 0}, 1, 1, "q", hop_energy(2, 2, 2, true)); return s;
}
inline std::vector<Named> lattices() {
    return {{"chain", chain()}, {"dimer chain", dimer_chain()}, {"square", square()}, {"square far", square_far()}, {"honeycomb", honeycomb()}, {"supercell", supercell()},
            {"oblique", oblique()}, {"no hoppings", no_hoppings()}, {"rows", rows()}, {"bilayer", bilayer()}, {"cubic", cubic()}};
}

// ------------------------------------------------------------------------------------------------ shapes

/// A shape with an exact description: `inside` gives the signed distance-like value, positive inside; |value| < 1e-3 is too close to tell
struct RefShape {
    std::string text;
    cpb::Shape shape;
    std::function<double(Cartesian)> inside;
    double xmin, xmax, ymin, ymax, zmin, zmax;
};

inline double segment_distance(double px, double py, double ax, double ay, double bx, double by) {
    double const dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy;
    double t = l > 0 ? ((px - ax) * dx + (py - ay) * dy) / l : 0; t = std::max(0.0, std::min(1.0, t));
    return std::hypot(px - ax - t * dx, py - ay - t * dy);
}
/// Even-odd rule by winding angle: independent of ray casting
inline double polygon_value(std::vector<Cartesian> const& v, double px, double py) {
    double dist = 1e30; double angle = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        auto const& a = v[i]; auto const& b = v[(i + 1) % v.size()];
        dist = std::min(dist, segment_distance(px, py, a.x(), a.y(), b.x(), b.y()));
        double const x1 = a.x() - px, y1 = a.y() - py, x2 = b.x() - px, y2 = b.y() - py;
        angle += std::atan2(x1 * y2 - x2 * y1, x1 * x2 + y1 * y2);
    }
    return std::abs(angle) > 3.0 ? dist : -dist;
}
inline RefShape polygon(std::vector<Cartesian> v) {
    std::ostringstream o; o << "polygon"; for (auto& p : v) { o << " " << p.x() << "," << p.y(); }
    RefShape r{o.str(), cpb::Polygon(v), [v](Cartesian p) { return polygon_value(v, p.x(), p.y()); }, 1e9, -1e9, 1e9, -1e9, -1e9, 1e9};
    for (auto& p : v) { r.xmin = std::min(r.xmin, double(p.x())); r.xmax = std::max(r.xmax, double(p.x())); r.ymin = std::min(r.ymin, double(p.y())); r.ymax = std::max(r.ymax, double(p.y())); }
    return r;
}
inline RefShape rectangle(float x0, float x1, float y0, float y1) { return polygon({{x0, y0, 0}, {x0, y1, 0}, {x1, y1, 0}, {x1, y0, 0}}); }
inline RefShape line(Cartesian a, Cartesian b) {
    auto const u = (b - a).cast<double>().eval(); auto const n = u.norm();
    return {str("line ", text(a), text(b)), cpb::Line(a, b), [a, u, n](Cartesian p) { double const t = (p - a).cast<double>().dot(u) / n; return std::min(t, n - t); },
            std::min(a.x(), b.x()), std::max(a.x(), b.x()), -1e9, 1e9, -1e9, 1e9};
}
inline RefShape ball(Cartesian c, float radius) {
    auto const contains = [c, radius](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> {
        return (p.x() - c.x()).square() + (p.y() - c.y()).square() + (p.z() - c.z()).square() < radius * radius;
    };
    auto const w = Cartesian::Constant(2 * radius);
    return {str("ball ", text(c), " radius ", radius), cpb::FreeformShape(contains, w, c), [c, radius](Cartesian p) { return double(radius) - (p - c).cast<double>().norm(); },
            c.x() - radius, c.x() + radius, c.y() - radius, c.y() + radius, c.z() - radius, c.z() + radius};
}

/// The sites inside the shape, after removing the dangling ones; `ambiguous` when a site is too close to the edge of the shape.
/// A site is dangling when it lost a neighbour and has fewer than the minimum left.
inline System carve(Spec const& spec, RefShape const& shape, bool& ambiguous, int span = 8) {
    System r; ambiguous = false;
    auto const nd = spec.ndim();
    for (int s = 0; s < static_cast<int>(spec.subs.size()); ++s) {
        for (int z = nd > 2 ? -span : 0; z <= (nd > 2 ? span : 0); ++z) { for (int y = nd > 1 ? -span : 0; y <= (nd > 1 ? span : 0); ++y) { for (int x = -span; x <= span; ++x) {
            auto const site = lattice_site(spec, Index3D(x, y, z), s);
            auto const v = shape.inside(site.pos);
            if (std::abs(v) < 1e-3) { ambiguous = true; }
            if (v > 0) { r.sites.push_back(site); }
        } } }
    }
    connect(r, spec);
    std::vector<int> full(spec.subs.size(), 0), have(r.sites.size(), 0);
    for (auto& t : spec.terms) { ++full[t.from]; ++full[t.to]; }
    for (auto& b : r.bonds) { ++have[b.a]; ++have[b.b]; }
    for (bool changed = true; changed;) {
        changed = false;
        for (size_t i = 0; i < r.sites.size(); ++i) {
            if (!r.sites[i].alive || have[i] >= spec.min_neighbors || have[i] >= full[r.sites[i].sub]) { continue; }
            r.sites[i].alive = false; changed = true;
            for (auto& b : r.bonds) {
                if (b.a == static_cast<int>(i) && r.sites[b.b].alive) { --have[b.b]; }
                if (b.b == static_cast<int>(i) && r.sites[b.a].alive) { --have[b.a]; }
            }
        }
    }
    erase_dead_bonds(r);
    return r;
}

} // namespace gen
