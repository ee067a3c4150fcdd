// C17: shapes contain exactly the points of their geometry -- every simple polygon and line on small grids, on the real code
#include "shapes.hpp"
using namespace gen;

namespace {

/// Integer coordinates: vertices on multiples of 8, points anywhere
using P = std::array<long, 2>;
long cross(P const& a, P const& b, P const& c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
int sign(long v) { return (v > 0) - (v < 0); }
bool on_segment(P const& a, P const& b, P const& p) {
    return cross(a, b, p) == 0 && std::min(a[0], b[0]) <= p[0] && p[0] <= std::max(a[0], b[0]) && std::min(a[1], b[1]) <= p[1] && p[1] <= std::max(a[1], b[1]);
}
bool touch(P const& a, P const& b, P const& c, P const& d) {
    if (on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b)) { return true; }
    return sign(cross(a, b, c)) * sign(cross(a, b, d)) < 0 && sign(cross(c, d, a)) * sign(cross(c, d, b)) < 0;
}
/// Sides meet only at shared vertices, and do not fold back
bool simple(std::vector<P> const& v) {
    auto const n = v.size();
    for (size_t i = 0; i < n; ++i) {
        auto const& a = v[i]; auto const& b = v[(i + 1) % n];
        for (size_t j = i + 1; j < n; ++j) {
            auto const& c = v[j]; auto const& d = v[(j + 1) % n];
            if (j == i + 1) { if (on_segment(a, b, d) || on_segment(c, d, a)) { return false; } }
            else if ((j + 1) % n == i) { if (on_segment(a, b, c) || on_segment(c, d, b)) { return false; } }
            else if (touch(a, b, c, d)) { return false; }
        }
    }
    return true;
}
/// The first n + 1 points of the sequence can be the start of a simple polygon
bool open_simple(std::vector<P> const& v) {
    auto const n = v.size();
    if (n < 3) { return true; }
    auto const& a = v[n - 2]; auto const& b = v[n - 1];
    for (size_t i = 0; i + 2 < n; ++i) {
        auto const& c = v[i]; auto const& d = v[i + 1];
        if (i + 3 == n) { if (on_segment(c, d, b) || on_segment(a, b, c)) { return false; } }
        else if (touch(a, b, c, d)) { return false; }
    }
    return true;
}
/// 1 inside, -1 outside, 0 on the boundary: winding number, with exact arithmetic
int locate(std::vector<P> const& v, P const& p) {
    int winding = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        auto const& a = v[i]; auto const& b = v[(i + 1) % v.size()];
        if (on_segment(a, b, p)) { return 0; }
        if (a[1] <= p[1] && b[1] > p[1] && cross(a, b, p) > 0) { ++winding; }
        if (a[1] > p[1] && b[1] <= p[1] && cross(a, b, p) < 0) { --winding; }
    }
    return winding ? 1 : -1;
}

struct Frame { float unit, x, y; char const* name; };
std::vector<Frame> const& frames() {   // unit: length of one step of the integer grid (1/8 of the vertex grid)
    static std::vector<Frame> const r{{0.125f, 0, 0, "plain"}, {0.125f, -1, -1, "centered"}, {0.125f / 1048576, 0.125f / 65536, 0.125f / 65536, "small units"}, {16384, -32768, 16384, "large units"}, {0.0173f, -0.31f, 0.47f, "inexact"}};
    return r;
}
std::string show(std::vector<P> const& v) { std::ostringstream o; for (auto& p : v) { o << " (" << p[0] / 8 << "," << p[1] / 8 << ")"; } return o.str(); }

struct Points { std::vector<P> at; };
Points points(int nx, int ny, int step) {
    Points r;
    for (long x = -step; x <= 8 * (nx - 1) + step; x += step) { for (long y = -step; y <= 8 * (ny - 1) + step; y += step) { r.at.push_back({x, y}); } }
    // in line with the vertices, far away: rays may hit vertices and sides
    for (long y = 0; y <= 8 * (ny - 1); y += 4) { r.at.push_back({-800, y}); r.at.push_back({801, y}); }
    for (long x = 0; x <= 8 * (nx - 1); x += 4) { r.at.push_back({x, -800}); r.at.push_back({x, 801}); }
    return r;
}

bool check_polygon(pbv::Worker& w, std::vector<P> const& v, Points const& pts, Frame const& f, int ulp_vertex, int ulps, bool closed) {
    cpb::Shape::Vertices vs;
    for (auto& p : v) { vs.push_back({f.x + f.unit * static_cast<float>(p[0]), f.y + f.unit * static_cast<float>(p[1]), 0}); }
    if (ulp_vertex >= 0) { auto& y = vs[static_cast<size_t>(ulp_vertex)].y(); for (int k = 0; k < std::abs(ulps); ++k) { y = std::nextafter(y, ulps > 0 ? 1e30f : -1e30f); } }
    if (closed) { vs.push_back(vs.front()); }
    cpb::Polygon const shape(vs);
    cpb::CartesianArray a(static_cast<idx_t>(pts.at.size()));
    for (size_t i = 0; i < pts.at.size(); ++i) { a[static_cast<idx_t>(i)] = Cartesian(f.x + f.unit * static_cast<float>(pts.at[i][0]), f.y + f.unit * static_cast<float>(pts.at[i][1]), static_cast<float>(i % 3)); }
    auto const got = shape.contains(a);
    auto const describe = [&] { return str(f.name, ulp_vertex >= 0 ? str(", vertex ", ulp_vertex, " moved by ", ulps, " ulp") : "", closed ? ", first vertex repeated" : ""); };
    if (!w.check(got.size() == a.size(), "size", [&] { return std::string("a result of the wrong size"); })) { return false; }
    bool ok = w.check(shape.vertices == vs, "vertices", [&] { return std::string("the vertices are not those given"); });
    for (size_t i = 0; ok && i < pts.at.size(); ++i) {
        auto const where = locate(v, pts.at[i]);
        if (where == 0) { continue; }
        ok = w.check(got[static_cast<idx_t>(i)] == (where > 0), "polygon", [&] { return str(describe(), ": the point ", pts.at[i][0] / 8.0, ",", pts.at[i][1] / 8.0, " of the polygon", show(v), " is ", where > 0 ? "inside" : "outside", ", but that is not what the shape says"); });
    }
    w.count("shapes"); w.count("points", pts.at.size());
    return ok;
}

/// Sequences of distinct grid points which make simple polygons
void polygons(std::vector<P>& v, std::vector<P> const& grid, int most, std::function<void()> const& f) {
    if (v.size() >= 3 && simple(v)) { f(); }
    if (static_cast<int>(v.size()) == most) { return; }
    for (auto& p : grid) {
        if (std::find(v.begin(), v.end(), p) != v.end()) { continue; }
        v.push_back(p);
        if (open_simple(v)) { polygons(v, grid, most, f); }
        v.pop_back();
    }
}
std::vector<P> grid(int nx, int ny) { std::vector<P> r; for (long x = 0; x < nx; ++x) { for (long y = 0; y < ny; ++y) { r.push_back({8 * x, 8 * y}); } } return r; }

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "a case is one family of polygons which share their first two vertices (all simple continuations on the grid, in every vertex order and orientation), one line, one box or one lead; distinct: different shapes";
    info.states = "shapes"; info.transitions = "points"; info.traces = "shapes";
    info.assumptions = {"points on the boundary of a polygon may be inside or not; a line includes the points which project on its ends"};
    return pbv::run(argc, argv, "C17", info, [](pbv::Worker& w) {
        bool const deep = w.ctx.thorough();
        // ---- polygons
        auto const family = [&](int nx, int ny, int most, int step, int least_frames, int most_ulp) {
            auto const g = grid(nx, ny); auto const pts = points(nx, ny, step);
            for (auto& a : g) { for (auto& b : g) {
                if (a == b) { continue; }
                if (!w.next([&] { return str("polygons of up to ", most, " vertices on a ", nx, "x", ny, " grid which start with (", a[0] / 8, ",", a[1] / 8, ") (", b[0] / 8, ",", b[1] / 8, ")"); })) { continue; }
                std::vector<P> v{a, b};
                bool ok = true;
                polygons(v, g, most, [&] {
                    if (!ok) { return; }
                    w.distinct(pbv::hash(show(v)));
                    auto const n = static_cast<int>(v.size());
                    for (size_t k = 0; ok && k < frames().size(); ++k) { if (k == 0 || n <= least_frames) { ok = check_polygon(w, v, pts, frames()[k], -1, 0, false); } }
                    if (ok && n <= least_frames) { ok = check_polygon(w, v, pts, frames()[1], -1, 0, true); }
                    // sides which are parallel to the ray but for the last bit
                    if (n <= most_ulp) { for (int i = 0; ok && i < n; ++i) { for (int u : {-1, 1, -2, 2, 3}) {
                        if (!ok) { break; }
                        ok = check_polygon(w, v, pts, {0.125f, 1, 1, "shifted"}, i, u, false);
                        if (ok) { ok = check_polygon(w, v, pts, {0.0173f, 0.31f, -0.87f, "inexact and shifted"}, i, u, false); }
                    } } }
                });
                w.progress();
            } }
        };
        family(3, 3, deep ? 9 : 6, 2, 5, deep ? 5 : 4);
        family(4, 3, deep ? 7 : 5, 4, 4, 4);
        family(4, 4, deep ? 5 : 4, 4, 4, 3);
        family(2, 5, deep ? 6 : 5, 2, 4, 4);
        if (deep) { family(5, 5, 4, 4, 3, 3); }
        // ---- lines: the points which project between the two ends, both included
        int const reach = deep ? 2 : 1;
        for (int code = 0; code < static_cast<int>(std::pow(2 * reach + 1, 3)); ++code) {
            auto const at = [&](int c, int m) -> Index3D { return Index3D(c % m, c / m % m, c / m / m) - Index3D::Constant(m / 2); };
            Index3D const a = at(code, 2 * reach + 1);
            if (!w.next([&] { return str("lines which start at ", text(a)); })) { continue; }
            for (int c2 = 0; c2 < static_cast<int>(std::pow(2 * reach + 1, 3)); ++c2) {
                Index3D const b = at(c2, 2 * reach + 1);
                if (a == b) { continue; }
                for (auto const& f : {Frame{1, 0, 0, "plain"}, Frame{1.0f / 1048576, 0, 0, "small units"}, Frame{65536, 65536, 0, "large units"}}) {
                    auto const real = [&](Eigen::Vector3d p) { return Cartesian(static_cast<float>(p.x()) * f.unit + f.x, static_cast<float>(p.y()) * f.unit + f.y, static_cast<float>(p.z()) * f.unit); };
                    cpb::Line const line(real(a.cast<double>()), real(b.cast<double>()));
                    cpb::CartesianArray pts(9 * 9 * 9); std::vector<int> where; idx_t k = 0;
                    for (int x = -4; x <= 4; ++x) { for (int y = -4; y <= 4; ++y) { for (int z = -4; z <= 4; ++z) {
                        Eigen::Vector3i const p(x, y, z);
                        auto const t = (p - 2 * a).dot(b - a), l = 2 * (b - a).dot(b - a);   // in half steps
                        where.push_back(t >= 0 && t <= l);
                        pts[k++] = real(p.cast<double>() / 2);
                    } } }
                    auto const got = line.contains(pts);
                    bool ok = w.check(got.size() == pts.size() && line.vertices.size() == 2, "line", [&] { return std::string("a result of the wrong size"); });
                    for (idx_t i = 0; ok && i < pts.size(); ++i) {
                        ok = w.check(got[i] == (where[static_cast<size_t>(i)] == 1), "line", [&] { cpb::CartesianArray const& c = pts; return str(f.name, ": the line from ", text(a), " to ", text(b), where[static_cast<size_t>(i)] ? " does not contain " : " contains ", text(Cartesian(c[i] / f.unit))); });
                    }
                    w.count("shapes"); w.count("points", static_cast<pbv::u64>(pts.size()));
                    w.distinct(pbv::hash(str("line", text(a), text(b), f.name)));
                    if (!ok) { break; }
                }
            }
        }
        // ---- freeform shapes: the box, and exactly what the function says
        for (int code = 0; code < 125; ++code) {
            Cartesian const width(0.5f + 0.75f * static_cast<float>(code % 5), 0.25f * static_cast<float>(code / 5 % 5), 1.5f * static_cast<float>(code / 25));
            if (!w.next([&] { return str("boxes of size ", text(width)); })) { continue; }
            for (auto const& center : {Cartesian(0, 0, 0), Cartesian(1, -2, 0.5f), Cartesian(-100, 3, 7)}) { for (int kind = 0; kind < 4; ++kind) {
                std::vector<std::array<float, 3>> seen;
                auto const in = [&](float x, float y, float z) { return kind == 0 ? true : kind == 1 ? false : kind == 2 ? x > center.x() : (x - center.x()) * (y - center.y()) + z > center.z(); };
                cpb::FreeformShape const shape([&](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> {
                    cpb::ArrayX<bool> r(p.size()); for (idx_t i = 0; i < p.size(); ++i) { r[i] = in(p.x()[i], p.y()[i], p.z()[i]); seen.push_back({{p.x()[i], p.y()[i], p.z()[i]}}); } return r;
                }, width, center);
                Cartesian low = Cartesian::Constant(1e9f), high = -low;
                for (auto& v : shape.vertices) { low = low.cwiseMin(v); high = high.cwiseMax(v); }
                auto const tol = 1e-6f * (1 + center.norm());
                w.check((low - (center - width / 2)).norm() <= tol && (high - (center + width / 2)).norm() <= tol, "box", [&] { return str("the box of size ", text(width), " around ", text(center), " reaches from ", text(low), " to ", text(high)); });
                for (int c = 0; c < 8; ++c) {   // all the corners
                    Cartesian const corner = center + Cartesian(c & 1 ? 0.5f : -0.5f, c & 2 ? 0.5f : -0.5f, c & 4 ? 0.5f : -0.5f).cwiseProduct(width);
                    bool found = false; for (auto& v : shape.vertices) { found |= (v - corner).norm() <= tol; }
                    w.check(found, "box", [&] { return str("the corner ", text(corner), " is missing"); });
                }
                cpb::CartesianArray pts(27); for (int i = 0; i < 27; ++i) { pts[i] = center + Cartesian(float(i % 3 - 1), float(i / 3 % 3 - 1), float(i / 9 - 1)).cwiseProduct(width) * 0.4f; }
                auto const got = shape.contains(pts);
                for (int i = 0; i < 27; ++i) { cpb::CartesianArray const& c = pts; w.check(got[i] == in(c[i].x(), c[i].y(), c[i].z()) && seen[static_cast<size_t>(i)] == std::array<float, 3>{{c[i].x(), c[i].y(), c[i].z()}}, "freeform", [&] { return std::string("not what the function says"); }); }
                w.count("shapes"); w.count("points", 27); w.distinct(pbv::hash(str("box", text(width), text(center), kind)));
            } }
        }
        if (w.next([&] { return std::string("too few vertices"); })) {
            w.check(!thrown([] { cpb::Polygon p({}); }).empty() && !thrown([] { cpb::Polygon p({Cartesian(0, 0, 0)}); }).empty() && thrown([] { cpb::Polygon p({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}); }).empty(), "vertices", [] { return std::string("a shape without extent is accepted, or a proper one rejected"); });
        }
        // ---- the cross-section of a lead: the rows (columns) of a square lattice which the shape contains
        for (int n = 1; n <= (deep ? 6 : 5); ++n) { for (int dir : {-1, 1, -2, 2}) {
            if (!w.next([&] { return str("leads in direction ", dir, " of a ", n, "x", n, " block"); })) { continue; }
            auto const lattice = make(square());
            int const axis = std::abs(dir) - 1, across = 1 - axis;
            cpb::Model plain(lattice, cpb::Primitive(n, n, 1));
            auto const sites = real_sites(*plain.system());
            int low = 1000, high = -1000, start = 1000, stop = -1000;
            for (auto& s : sites) { low = std::min(low, static_cast<int>(std::lround(s.pos[across]))); high = std::max(high, static_cast<int>(std::lround(s.pos[across]))); start = std::min(start, static_cast<int>(std::lround(s.pos[axis]))); stop = std::max(stop, static_cast<int>(std::lround(s.pos[axis]))); }
            for (int at = 2 * start - 1; at <= 2 * stop + 1; ++at) {            // position of the shape along the lead, in half cells
                for (int from = 2 * low; from <= 2 * high; ++from) { for (int to = from; to <= 2 * high; ++to) { for (int kind = 0; kind < 4; ++kind) {
                    // the ends of a line belong to it, those of the other shapes are kept away from the rows; these are
                    // thick enough to contain the middle of their part within the block, where a lead looks at its shape
                    if (kind < 2 ? from == to : from % 2 == 0 || to % 2 == 0 || from == to) { continue; }
                    auto const point = [&](double along, double side) { Cartesian p(0, 0, 0); p[axis] = static_cast<float>(along); p[across] = static_cast<float>(side); return p; };
                    double const x = at / 2.0, a = from / 2.0, b = to / 2.0;
                    cpb::Shape shape;
                    if (kind == 0) { shape = cpb::Line(point(x, a), point(x, b)); }
                    else if (kind == 1) { shape = cpb::Line(point(x, b), point(x, a)); }
                    else if (kind == 2) { shape = cpb::Polygon({point(x - 2.75, a), point(x - 2.75, b), point(x + 2.75, b), point(x + 2.75, a)}); }
                    else { shape = cpb::FreeformShape([=](cpb::CartesianArrayConstRef p) -> cpb::ArrayX<bool> { cpb::ArrayX<bool> r(p.size()); auto const& y = across == 0 ? p.x() : p.y(); for (idx_t i = 0; i < p.size(); ++i) { r[i] = y[i] > a && y[i] < b; } return r; }, (point(x + 2.75, b) - point(x - 2.75, a)), 0.5f * (point(x, a) + point(x, b))); }
                    std::vector<int> want; for (int row = low; row <= high; ++row) { if (2 * row >= from && 2 * row <= to) { want.push_back(row); } }
                    auto const what = [&] { return str(kind == 0 ? "line" : kind == 1 ? "reversed line" : kind == 2 ? "polygon" : "box", " from ", a, " to ", b, " at ", x); };
                    w.note(what());
                    cpb::Model m(lattice, cpb::Primitive(n, n, 1));
                    auto const problem = thrown([&] { m.attach_lead(dir, shape); m.eval(); m.leads(); });
                    if (!want.empty() && 2 * start <= at && at <= 2 * stop) {   // the shape overlaps the block: it must be possible
                        if (!w.check(problem.empty(), "lead", [&] { return what() + ": " + problem; })) { return; }
                    }
                    if (want.empty()) { if (!w.check(!problem.empty(), "lead", [&] { return what() + " contains no site, but a lead was attached"; })) { return; } }
                    if (!problem.empty() || want.empty()) { w.count("rejected leads"); continue; }
                    std::vector<int> got; auto const lead = m.lead(0); auto const& ls = lead.system();
                    for (idx_t i = 0; i < ls.num_sites(); ++i) { got.push_back(static_cast<int>(std::lround((across == 0 ? ls.positions.x : ls.positions.y)[i]))); }
                    std::sort(got.begin(), got.end());
                    if (!w.check(got == want, "lead", [&] { std::string t; for (auto g : got) { t += str(" ", g); } t += ", expected"; for (auto g : want) { t += str(" ", g); } return what() + ": the lead consists of the rows" + t; })) { return; }
                    w.count("leads"); w.count("shapes"); w.distinct(pbv::hash(str(n, dir, what())));
                } } }
            }
        } }
    });
}
