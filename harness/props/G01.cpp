// PLUGIN girg dbg rel
#include "gen.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

void compareAll(const GirgInst& g, const Edges& got, Case& c, const std::string& what) {
    size_t i = 0; uint64_t edges = 0, non = 0, amb = 0;
    for (int u = 0; u < g.n; ++u) for (int v = u + 1; v < g.n; ++v) {
        const bool has = i < got.size() && got[i] == std::make_pair(u, v);
        if (has) ++i;
        const int want = girgThreshold(g, u, v);
        if (want < 0) { ++amb; continue; }
        want ? ++edges : ++non;
        if (has != (want == 1))
            c.fail(cat(what, ": pair ", edgeText({u, v}), has ? " is connected but dist^d = " : " is missing although dist^d = ", double(distPow(g.p[size_t(u)], g.p[size_t(v)])),
                       has ? " is not below w_u*w_v/W = " : " is below w_u*w_v/W = ", double((long double)g.w[size_t(u)] * g.w[size_t(v)] / g.W)));
    }
    c.count("pairs", double(edges + non)); c.count("edges", double(edges)); c.count("undecided", double(amb));
    c.nontrivial(edges > 0 && non > 0);
}

void small(Source& s, Case& c) {
    GirgOpts o; o.maxSmall = 20; o.maxN = 350; o.smallShare = 45; o.maxThreads = 16;
    auto g = genGirg(s, o);
    const int cfg = int(s.raw(2)); const int seed = genSeed(s);
    auto& api = girg(CONFIG[cfg]);
    c.describe(cat(g.text(), " seed=", seed, " build=", CONFIG[cfg]));
    c.label(cat("d=", g.d)); c.label("w:" + g.weightKind); c.label("x:" + g.posKind); if (g.threads > 1) c.label("parallel"); c.label(CONFIG[cfg]);
    c.label(g.L <= 2 ? "levels:1" : g.L <= 2 + 2 * g.d ? "levels:2-3" : "levels:deep");
    api.setThreads(g.threads);
    auto e = canonical(api.edges(g.w, g.p, INF, seed), g.n, c, "threshold GIRG");
    compareAll(g, e, c, "threshold GIRG");
}

// Weights that are powers of two and add up to one, positions on a grid: both sides of the comparison are computed
// without rounding in whatever order, so pairs at exactly the threshold are decided too. They are not closer than it.
void exact(Source& s, Case& c) {
    GirgInst g; g.d = int(s.range(1, 5)); g.threads = genThreads(s, 8); g.weightKind = "powers of two"; g.posKind = "grid";
    std::vector<int> e{0}; // exponents
    const int want = int(s.range(2, s.chance(1, 4) ? 64 : 12)); const bool even = s.chance(1, 2);
    while (int(e.size()) < want) {
        size_t i = even ? size_t(std::max_element(e.begin(), e.end()) - e.begin()) : size_t(s.raw(e.size()));
        if (e[i] <= -8) i = size_t(std::max_element(e.begin(), e.end()) - e.begin());
        --e[i]; e.push_back(e[i]);
    }
    const int lo = *std::min_element(e.begin(), e.end()); g.n = int(e.size());
    // the sum is 2^k, the smallest weight 2^(lo+k)
    g.L = double(s.range(-2, g.d == 1 ? 12 : 9));
    const int k = -int(g.L) - 2 * lo, bits = int(s.range(1, 6));
    g.W = std::exp2(double(k));
    for (auto x : e) g.w.push_back(std::exp2(double(x + k)));
    for (int i = 0; i < g.n; ++i) { std::vector<double> x; for (int j = 0; j < g.d; ++j) x.push_back(double(s.raw(1ull << bits)) * std::exp2(-double(bits))); g.p.push_back(x); }
    const int cfg = int(s.raw(2)), seed = genSeed(s); auto& api = girg(CONFIG[cfg]);
    c.describe(cat(g.text(), " seed=", seed, " build=", CONFIG[cfg])); c.label(cat("d=", g.d)); if (g.threads > 1) c.label("parallel"); c.label(CONFIG[cfg]);
    api.setThreads(g.threads);
    auto got = canonical(api.edges(g.w, g.p, INF, seed), g.n, c, "threshold GIRG");
    size_t i = 0, ties = 0, edges = 0;
    for (int u = 0; u < g.n; ++u) for (int v = u + 1; v < g.n; ++v) {
        const bool has = i < got.size() && got[i] == std::make_pair(u, v); if (has) ++i;
        const long double dist = distPow(g.p[size_t(u)], g.p[size_t(v)]), thr = (long double)g.w[size_t(u)] * g.w[size_t(v)] / g.W;
        ties += dist == thr; edges += dist < thr;
        if (has != (dist < thr)) c.fail(cat("pair ", edgeText({u, v}), has ? " is connected" : " is missing", " with dist^d = ", double(dist), " and w_u*w_v/W = ", double(thr), ", all numbers are exact"));
    }
    c.count("pairs", 0.5 * g.n * (g.n - 1)); c.count("pairs at the threshold", double(ties)); c.count("edges", double(edges)); if (ties) c.label("ties");
    c.nontrivial(ties > 0);
}

// large graphs: all pairs of some sampled vertices, plus the total degree symmetry through every reported edge
void large(Source& s, Case& c) {
    GirgOpts o; o.minN = 500; o.maxSmall = 0; o.smallShare = 0; o.maxN = c.thorough ? 60000 : 12000; o.maxThreads = 16;
    auto g = genGirg(s, o);
    if (g.L < std::log2(double(g.n)) - 5) { const double k = std::exp2(std::log2(double(g.n)) - 5 - g.L); for (auto& x : g.w) x /= k; g.W /= k; g.L += std::log2(k); }
    const int cfg = int(s.raw(2)); const int seed = genSeed(s);
    auto& api = girg(CONFIG[cfg]);
    c.describe(cat(g.text(), " seed=", seed, " build=", CONFIG[cfg]));
    c.label(cat("d=", g.d)); c.label("w:" + g.weightKind); c.label("x:" + g.posKind); if (g.threads > 1) c.label("parallel"); c.label(CONFIG[cfg]);
    // keep the number of edges bounded: estimate from a sample of pairs
    Rng r = s.bulk(); double hit = 0; const int tries = 20000;
    for (int i = 0; i < tries; ++i) { int u = int(r.below(uint64_t(g.n))), v = int(r.below(uint64_t(g.n))); if (u != v) hit += girgThreshold(g, u, v) == 1; }
    if (hit / tries * g.n * double(g.n) / 2 > 6e6) c.skip();
    api.setThreads(g.threads);
    auto e = canonical(api.edges(g.w, g.p, INF, seed), g.n, c, "threshold GIRG");
    for (auto& x : e) if (girgThreshold(g, x.first, x.second) == 0) c.fail(cat("pair ", edgeText(x), " is connected but too far apart: dist^d = ", double(distPow(g.p[size_t(x.first)], g.p[size_t(x.second)]))));
    std::vector<std::vector<int>> adj(size_t(g.n));
    for (auto& x : e) { adj[size_t(x.first)].push_back(x.second); adj[size_t(x.second)].push_back(x.first); }
    std::vector<int> probes;
    const int k = std::min(g.n, c.thorough ? 1500 : 700);
    probes.push_back(int(std::max_element(g.w.begin(), g.w.end()) - g.w.begin()));
    for (int i = 0; i < k; ++i) probes.push_back(int(r.below(uint64_t(g.n))));
    uint64_t edges = 0, checked = 0;
    for (int u : probes) {
        std::sort(adj[size_t(u)].begin(), adj[size_t(u)].end());
        for (int v = 0; v < g.n; ++v) if (v != u) {
            const int want = girgThreshold(g, u, v); ++checked;
            if (want == 1) { ++edges; if (!std::binary_search(adj[size_t(u)].begin(), adj[size_t(u)].end(), v)) c.fail(cat("pair ", edgeText({u, v}), " is missing although dist^d = ", double(distPow(g.p[size_t(u)], g.p[size_t(v)])), " is below the threshold")); }
        }
    }
    c.count("pairs", double(checked)); c.count("edges", double(e.size())); c.nontrivial(edges > 0 && edges < checked);
}

} // namespace

pbt::Property pbt::define() {
    return {"G01",
        "A case is a weight vector (equal, Pareto, two classes, layer borders, one hub, log-uniform), a position set (uniform, cell corners, next to corners, clusters, lines, wrap-around, repeated points), a dimension, a scale of the weights, a thread count, a seed and a build; every pair is compared with the direct formula in long double (large: all pairs of sampled vertices and every reported edge). The sub-check exact uses weights that are powers of two adding up to one and grid positions and decides pairs at exactly the threshold as well. Non-trivial: both connected and unconnected pairs exist among the decided ones (exact: a pair lies at the threshold).",
        {"pairs whose two sides differ by less than a relative 1e-12 (plus 4e-16 absolute in the coordinates) are not judged outside of the sub-check exact"},
        {{"small", 80000, 600000, small}, {"exact", 60000, 600000, exact}, {"large", 400, 4000, large, 2}}, [] { girg("dbg"); girg("rel"); }};
}
