// C03: carving a shape out of a lattice -- every combination of lattices, shapes, offsets and neighbour minimums within bounds
#include "shapes.hpp"
using namespace gen;

namespace {

/// Shapes for 1D, 2D and 3D lattices: positions and sizes in steps which are unrelated to the lattice
std::vector<RefShape> shapes(int ndim, bool deep) {
    std::vector<RefShape> r;
    std::vector<float> starts, widths;
    for (float s = -3.2f; s < (deep ? 1.6f : 1.2f); s += deep ? 0.29f : 0.37f) { starts.push_back(s); }
    widths = deep ? std::vector<float>{0.71f, 1.93f, 3.37f} : std::vector<float>{0.83f, 1.71f, 2.93f};
    if (ndim == 1) {
        for (float s = -4.1f; s < 3; s += deep ? 0.067f : 0.17f) { for (float w = 0.3f; w < 5; w += deep ? 0.31f : 0.77f) {
            r.push_back(line({s, 0, 0}, {s + w, 0, 0}));
            r.push_back(line({s + w, 0, 0}, {s, 0, 0}));
            r.push_back(ball({s, 0, 0}, w / 2));
        } }
        return r;
    }
    if (ndim == 2) {
        for (float x : starts) { for (float y : starts) { for (float w : widths) { for (float h : widths) {
            if (!deep && (w != h)) { continue; }
            r.push_back(rectangle(x, x + w, y, y + h));
        } } } }
        for (float x : starts) { for (float y : starts) { for (float w : widths) {
            if (w < 1) { continue; }
            r.push_back(polygon({{x, y, 0}, {x + 1.3f * w, y + 0.4f * w, 0}, {x + 0.3f * w, y + 1.2f * w, 0}}));
            r.push_back(ball({x + 1.1f, y + 1.1f, 0}, w / 1.7f));
            // an L and an arrow head: concave
            if (deep || w > 2) { r.push_back(polygon({{x, y, 0}, {x + w, y, 0}, {x + w, y + 0.4f * w, 0}, {x + 0.45f * w, y + 0.4f * w, 0}, {x + 0.45f * w, y + w, 0}, {x, y + w, 0}}));
                                 r.push_back(polygon({{x, y, 0}, {x + 1.4f * w, y + 0.5f * w, 0}, {x, y + w, 0}, {x + 0.5f * w, y + 0.5f * w, 0}})); }
        } } }
        return r;
    }
    for (float x = -1.9f; x < 1; x += deep ? 0.37f : 0.71f) { for (float y = -1.7f; y < 1; y += deep ? 0.53f : 0.91f) { for (float z = -1.6f; z < 1; z += deep ? 0.41f : 0.83f) {
        for (float w : {1.21f, 1.87f}) { r.push_back(ball({x, y, z}, w)); }
    } } }
    return r;
}

std::vector<Cartesian> offsets(Spec const& s, bool deep) {
    std::vector<Cartesian> r{{0, 0, 0}};
    std::vector<float> const steps = deep ? std::vector<float>{-0.53f, 0.17f, 0.53f} : std::vector<float>{-0.53f, 0.41f};
    for (float u : steps) {
        if (s.ndim() == 1) { r.push_back(u * s.vectors[0]); continue; }
        for (float v : steps) { r.push_back(u * s.vectors[0] + v * s.vectors[1]); if (s.ndim() == 3) { r.push_back(u * s.vectors[0] + v * s.vectors[1] - u * s.vectors[2]); } }
    }
    return r;
}

} // namespace

int main(int argc, char** argv) {
    pbv::Info info;
    info.rule = "one case per lattice, offset, neighbour minimum and way of giving the offset, for every shape of a grid of shapes; distinct = different carved structures; "
                "structures with a site within 1e-3 of the edge of the shape are skipped";
    info.states = "distinct"; info.transitions = "models"; info.traces = "models";
    info.assumptions = {"a site closer than 1e-3 to the edge of the shape may be kept or not", "a site which never had the minimum number of neighbours in the infinite lattice only counts as dangling when it lost one"};
    return pbv::run(argc, argv, "C03", info, [](pbv::Worker& w) {
        auto const deep = w.ctx.thorough();
        std::vector<RefShape> const all[3] = {shapes(1, deep), shapes(2, deep), shapes(3, deep)};
        for (auto const& named : lattices()) {
            for (auto const& offset : offsets(named.spec, deep)) {
                for (int min_neighbors = 1; min_neighbors <= 3; ++min_neighbors) {
                    for (int way = 0; way <= 1; ++way) {   // 0: offset of the lattice, 1: of the shape
                        if (way == 1 && offset == Cartesian(0, 0, 0)) { continue; }
                        auto const& list = all[named.spec.ndim() - 1];
                        constexpr size_t chunk = 24;
                        for (size_t from = 0; from < list.size(); from += chunk) {
                            if (!w.next([&] { return str(named.name, " offset ", text(offset), " of the ", way ? "shape" : "lattice", " min_neighbors ", min_neighbors, "; shapes ", from, "..."); })) { continue; }
                            auto spec = named.spec; spec.offset = offset; spec.min_neighbors = min_neighbors;
                            auto real_spec = spec; if (way == 1) { real_spec.offset = Cartesian(0, 0, 0); }
                            auto const lattice = make(real_spec);
                            for (size_t i = from; i < std::min(from + chunk, list.size()); ++i) {
                                auto const& s = list[i];
                                w.note(s.text);
                                bool ambiguous; auto const r = carve(spec, s, ambiguous);
                                if (ambiguous) { w.count("skipped"); continue; }
                                auto shape = s.shape; if (way == 1) { shape.lattice_offset = offset; }
                                cpb::Model model(lattice, shape);
                                auto const problem = thrown([&] { model.eval(); });
                                auto const n = r.num_sites();
                                bool ok;
                                if (n == 0) { ok = w.check(!problem.empty(), "empty", [&] { return str(s.text, ": expected an error because no site is left, but got ", model.system()->num_sites(), " sites"); }); }
                                else { ok = w.check(problem.empty(), "error", [&] { return str(s.text, ": ", problem, ", expected ", n, " sites"); })
                                            && match_model(w, model, r); }
                                if (!ok) { if (!w.violations.empty()) { w.violations.back().what = s.text + ": " + w.violations.back().what; } break; }
                                w.count("models"); if (n) { w.count("nonempty"); }
                                w.maximum("largest", static_cast<pbv::u64>(n));
                                auto h = pbv::mix(static_cast<pbv::u64>(n), pbv::hash(named.name));
                                for (auto& x : r.sites) { if (x.alive) { h = pbv::mix(h, pbv::hash(str(x.family, text(x.pos)))); } }
                                w.distinct(h);
                            }
                        }
                    }
                }
            }
        }
    });
}
