// STATIC hrg dbg
// EXEFLAGS -fopenmp
#include "gen.h"
#include <omp.h>
#include <girgs/SpatialTree.h>
#include <hypergirgs/RadiusLayer.h>
using namespace vp;

namespace {

struct Ignore { void operator()(int, int, int) const {} };

/// the layers a GIRG tree builds; empty if the class does not offer them to derived classes
template <unsigned D> struct Probe : girgs::SpatialTree<D, Ignore> {
    using Base = girgs::SpatialTree<D, Ignore>;
    static Ignore& callback() { static Ignore i; return i; }
    const Vec& w; const Pos& x;
    Probe(const Vec& w_, const Pos& x_) : Base(w_, x_, INF, callback()), w(w_), x(x_) {}
    template <typename P> auto layers(P* p) -> decltype(p->buildPartition(p->w, p->x)) { return p->buildPartition(p->w, p->x); }
    std::vector<girgs::WeightLayer<D>> layers(...) { return {}; }
    template <typename P> auto target(P* p, int i) -> decltype(unsigned(p->weightLayerTargetLevel(i))) { return p->weightLayerTargetLevel(i); }
    unsigned target(...) { return ~0u; }
};

/// what a layer tells about a cell must be these points, in any order, by all three ways
template <typename Layer, typename Get> void compareCell(const Layer& l, unsigned cell, unsigned level, std::vector<int> want, Get id, Case& c, const std::string& where) {
    const auto it = l.cellIterators(cell, level);
    if (it.second < it.first) c.fail(cat(where, ": cell ", cell, " of level ", level, ": range is negative"));
    const auto size = size_t(it.second - it.first);
    if (size != want.size()) c.fail(cat(where, ": cell ", cell, " of level ", level, " gives ", size, " points, ", want.size(), " lie in it"));
    if (l.pointsInCell(cell, level) != int(size)) c.fail(cat(where, ": cell ", cell, " of level ", level, ": pointsInCell is ", l.pointsInCell(cell, level), " but the range has ", size));
    std::vector<int> got;
    for (size_t k = 0; k < size; ++k) {
        got.push_back(id(it.first[k]));
        if (&l.kthPoint(cell, level, int(k)) != it.first + k) c.fail(cat(where, ": cell ", cell, " of level ", level, ": kthPoint(", k, ") is not the point number ", k, " of the range"));
    }
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    if (got != want) c.fail(cat(where, ": cell ", cell, " of level ", level, " gives other points than those lying in it"));
}

template <unsigned D> void girgLayers(Source& s, GirgInst& g, Case& c) {
    using H = girgs::SpatialTreeCoordinateHelper<D>;
    Probe<D> probe(g.w, g.p);
    auto layers = probe.layers(&probe);
    if (layers.empty() || probe.target(&probe, 0) == ~0u) { c.label("partition not accessible"); return; }
    const double w0 = *std::min_element(g.w.begin(), g.w.end());
    std::vector<int> seen(size_t(g.n), 0); uint64_t cells = 0, filled = 0;
    for (size_t i = 0; i < layers.size(); ++i) {
        const auto& layer = layers[i]; const unsigned deepest = probe.target(&probe, int(i));
        const auto all = layer.cellIterators(0, 0);
        if (all.second < all.first || all.second - all.first > g.n) c.fail(cat("weight layer ", i, " has ", all.second - all.first, " points"));
        std::vector<int> members;
        for (auto it = all.first; it != all.second; ++it) {
            if (it->index < 0 || it->index >= g.n) c.fail(cat("weight layer ", i, " holds a vertex ", it->index));
            ++seen[size_t(it->index)]; members.push_back(it->index);
            const double w = g.w[size_t(it->index)], lo = std::ldexp(w0, int(i));
            if (it->weight != w || !std::equal(it->coord.begin(), it->coord.end(), g.p[size_t(it->index)].begin())) c.fail(cat("the data of vertex ", it->index, " is not what was given"));
            if (w < lo * (1 - 1e-12) || w > 2 * lo * (1 + 1e-12)) c.fail(cat("vertex ", it->index, " of weight ", w, " is in layer ", i, " (", lo, " to ", 2 * lo, ")"));
        }
        for (unsigned l = 0; l <= deepest; ++l) {
            std::map<std::array<unsigned, D>, std::vector<int>> content;
            for (int v : members) { std::array<unsigned, D> k; for (unsigned d = 0; d < D; ++d) k[d] = unsigned(std::ldexp(g.p[size_t(v)][d], int(l))); content[k].push_back(v); }
            const unsigned first = H::firstCellOfLevel(l), count = H::numCellsInLevel(l);
            Rng r(first * 31 + i);
            const unsigned steps = std::min(count, 5000u);
            for (unsigned q = 0; q < steps; ++q) {
                const unsigned cell = first + (count <= 5000 ? q : unsigned(r.below(count)));
                const auto b = H::bounds(cell, l); std::array<unsigned, D> k; for (unsigned d = 0; d < D; ++d) k[d] = unsigned(std::ldexp(b[d].first, int(l)));
                auto it = content.find(k);
                compareCell(layer, cell, l, it == content.end() ? std::vector<int>() : it->second, [](const girgs::Node<D>& n) { return n.index; }, c, cat("d=", D, " weight layer ", i));
                ++cells; filled += it != content.end();
            }
            if (count > 5000) for (auto& kv : content) { // cells with points, and what follows them
                std::array<double, D> p; for (unsigned d = 0; d < D; ++d) p[d] = std::ldexp(kv.first[d] + 0.5, -int(l));
                compareCell(layer, first + H::cellForPoint(p, l), l, kv.second, [](const girgs::Node<D>& n) { return n.index; }, c, cat("d=", D, " weight layer ", i)); ++cells; ++filled;
            }
        }
    }
    for (int v = 0; v < g.n; ++v) if (seen[size_t(v)] != 1) c.fail(cat("vertex ", v, " of weight ", g.w[size_t(v)], " is in ", seen[size_t(v)], " weight layers"));
    c.count("cells", double(cells)); c.count("nonempty", double(filled)); c.nontrivial(filled > layers.size());
}
void weightPartition(Source& s, Case& c) {
    GirgOpts o; o.maxSmall = 16; o.maxN = 600; o.smallShare = 40; o.maxThreads = 16; o.maxL = 14;
    auto g = genGirg(s, o);
    c.describe(g.text()); c.label(cat("d=", g.d)); c.label("w:" + g.weightKind); c.label("x:" + g.posKind); if (g.threads > 1) c.label("parallel");
    omp_set_num_threads(g.threads);
    switch (g.d) { case 1: return girgLayers<1>(s, g, c); case 2: return girgLayers<2>(s, g, c); case 3: return girgLayers<3>(s, g, c); case 4: return girgLayers<4>(s, g, c); default: return girgLayers<5>(s, g, c); }
}

// a layer put together by hand from points per cell
template <unsigned D> void layerAlone(Source& s, Case& c) {
    using H = girgs::SpatialTreeCoordinateHelper<D>;
    const unsigned t = unsigned(s.range(0, 12 / D)), count = H::numCellsInLevel(t), before = unsigned(s.range(0, 5));
    const double share = s.pick({0.5, 0.05, 0.9, 1.0, 0.0});
    Rng r = s.bulk();
    std::vector<girgs::Node<D>> nodes; std::vector<unsigned> prefix; std::vector<std::vector<int>> in(count);
    for (unsigned i = 0; i < before; ++i) nodes.push_back(girgs::Node<D>(std::vector<double>(D, 0.5), 1.0, int(nodes.size())));
    for (unsigned i = 0; i < count; ++i) {
        prefix.push_back(unsigned(nodes.size()));
        const auto k = r.unit() < share ? 1 + r.below(3) : 0;
        for (uint64_t j = 0; j < k; ++j) { in[i].push_back(int(nodes.size())); nodes.push_back(girgs::Node<D>(std::vector<double>(D, 0.5), 1.0, int(nodes.size()))); }
    }
    prefix.push_back(unsigned(nodes.size()));
    c.describe(cat("d=", D, " target level ", t, " points ", nodes.size() - before)); c.label(cat("d=", D)); c.label(cat("target=", t)); c.nontrivial(t > 0 && nodes.size() > before);
    const girgs::WeightLayer<D> layer(t, nodes.data(), prefix.data());
    for (unsigned l = 0; l <= t; ++l) {
        const unsigned cells = H::numCellsInLevel(l), per = count / cells;
        for (unsigned i = 0; i < cells; ++i) { // descendants by the parent function only
            std::vector<int> want; unsigned lo = H::firstCellOfLevel(l) + i, hi = lo;
            for (unsigned k = l; k < t; ++k) { lo = H::firstChild(lo); hi = H::lastChild(hi); }
            if (hi - lo + 1 != per) c.fail("harness: descendants");
            for (unsigned k = lo; k <= hi; ++k) { auto& x = in[k - H::firstCellOfLevel(t)]; want.insert(want.end(), x.begin(), x.end()); }
            compareCell(layer, H::firstCellOfLevel(l) + i, l, want, [](const girgs::Node<D>& n) { return n.index; }, c, cat("d=", D, " layer of target level ", t));
        }
    }
}
void weightLayer(Source& s, Case& c) { switch (s.range(1, 5)) { case 1: return layerAlone<1>(s, c); case 2: return layerAlone<2>(s, c); case 3: return layerAlone<3>(s, c); case 4: return layerAlone<4>(s, c); default: return layerAlone<5>(s, c); } }

void radiusPartition(Source& s, Case& c) {
    using A = hypergirgs::AngleHelper;
    HrgOpts o; o.maxSmall = 16; o.maxN = 800; o.smallShare = 40; o.maxThreads = 16; o.maxR = 14;
    auto h = genHrg(s, o);
    double height = s.chance(1, 2) ? 1.0 : s.pick({0.5, 0.25, 2.0, h.R, h.R / 2, 0.7, 1.3});
    if (height > h.R) height = h.R;
    c.describe(cat(h.text(), " layer height=", height)); c.label("x:" + h.kind); if (h.threads > 1) c.label("parallel"); c.label(height == 1 ? "height=1" : "other height");
    omp_set_num_threads(h.threads);
    std::vector<hypergirgs::Point> points; std::vector<unsigned> first;
    const auto layers = hypergirgs::RadiusLayer::buildPartition(h.r, h.phi, h.R, height, points, first, false);
    if (layers.empty()) c.fail("no layers");
    if (points.size() != size_t(h.n)) c.fail(cat(points.size(), " points are stored"));
    std::vector<int> seen(size_t(h.n), 0); uint64_t cells = 0, filled = 0;
    for (size_t i = 0; i < layers.size(); ++i) {
        const auto& layer = layers[i]; const unsigned deepest = layer.m_target_level;
        if (i > 0 && layer.m_target_level > layers[i - 1].m_target_level) c.fail(cat("radius layer ", i, " has target level ", layer.m_target_level, ", deeper than the layer outside of it (", layers[i - 1].m_target_level, ")"));
        if (!(layer.m_r_min < layer.m_r_max) || layer.m_r_min < 0 || layer.m_r_max > h.R * (1 + 1e-15)) c.fail(cat("radius layer ", i, " has bounds ", layer.m_r_min, " to ", layer.m_r_max));
        if (i > 0 && layer.m_r_max > layers[i - 1].m_r_min + 1e-12) c.fail(cat("radius layers ", i - 1, " and ", i, " overlap"));
        const auto all = layer.cellIterators(0, 0);
        if (all.second < all.first || all.second - all.first > h.n) c.fail(cat("radius layer ", i, " has ", all.second - all.first, " points"));
        std::vector<int> members;
        for (auto it = all.first; it != all.second; ++it) {
            if (it->id < 0 || it->id >= h.n) c.fail(cat("radius layer ", i, " holds a vertex ", it->id));
            ++seen[size_t(it->id)]; members.push_back(it->id);
            const double r = h.r[size_t(it->id)], phi = h.phi[size_t(it->id)];
            if (r < layer.m_r_min || r > layer.m_r_max) c.fail(cat("vertex ", it->id, " of radius ", r, " is in the layer from ", layer.m_r_min, " to ", layer.m_r_max));
            if (std::fabs(it->invsinh_r * std::sinh(r) - 1) > 1e-12 || std::fabs(it->cos_phi - std::cos(phi)) > 1e-12 || std::fabs(it->sin_phi - std::sin(phi)) > 1e-12) c.fail(cat("the data of vertex ", it->id, " is not what was given"));
        }
        for (unsigned l = 0; l <= deepest; ++l) {
            std::vector<std::vector<int>> content(size_t(1) << l);
            for (int v : members) content[size_t((long double)h.phi[size_t(v)] / 2 / PI * (1ll << l))].push_back(v);
            // an angle equal to a border up to rounding may belong to either side: take the cell the library names
            for (int v : members) {
                const auto mine = size_t((long double)h.phi[size_t(v)] / 2 / PI * (1ll << l)), theirs = size_t(A::cellForPoint(h.phi[size_t(v)], l));
                if (mine == theirs) continue;
                const auto b = A::bounds(A::firstCellOfLevel(l) + unsigned(theirs), l);
                if (theirs >= content.size() || h.phi[size_t(v)] < b.first - 4e-15 || h.phi[size_t(v)] >= b.second + 4e-15) c.fail(cat("angle ", h.phi[size_t(v)], " does not lie in its cell ", theirs, " of level ", l));
                auto& m = content[mine]; m.erase(std::find(m.begin(), m.end(), v)); content[theirs].push_back(v);
            }
            for (unsigned k = 0; k < (1u << l); ++k) {
                compareCell(layer, A::firstCellOfLevel(l) + k, l, content[k], [](const hypergirgs::Point& p) { return p.id; }, c, cat("radius layer ", i, " (", layer.m_r_min, " to ", layer.m_r_max, ")"));
                ++cells; filled += !content[k].empty();
            }
        }
    }
    for (int v = 0; v < h.n; ++v) if (seen[size_t(v)] != 1) c.fail(cat("vertex ", v, " of radius ", h.r[size_t(v)], " is in ", seen[size_t(v)], " radius layers"));
    c.count("cells", double(cells)); c.count("nonempty", double(filled)); c.nontrivial(filled > layers.size());
}

} // namespace

pbt::Property pbt::define() {
    return {"C02",
        "weight-partition: a GIRG instance (all weight and position kinds, dimension, threads); every layer and every cell of every level down to the insertion level (5000 sampled ones and all nonempty ones where there are more) is compared with the points a brute force filter finds. weight-layer: a layer built by hand from points per cell. radius-partition: an HRG instance, a layer height and a thread count; all layers and all cells. Counts, ranges and k-th points must agree. Non-trivial: nonempty cells below the root exist.",
        {"points whose weight or angle equals a border up to rounding may be on either side", "the GIRG partition is reached through a derived class; were it not accessible, its cases would be labelled so and only layers built by hand be tested"},
        {{"weight-partition", 50000, 100000, weightPartition}, {"weight-layer", 20000, 400000, weightLayer}, {"radius-partition", 40000, 150000, radiusPartition}}, nullptr};
}
