// PLUGIN girg dbg rel
#include "stat.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};
constexpr double CUT = 1e-6; // documented: pairs below may be lost

/// all pairs, one group each, plus vertices and totals
void judge(Source& s, Case& c, const GirgInst& g, double alpha, int N) {
    const int cfg = int(s.weighted({1, 3}));
    auto& api = girg(CONFIG[cfg]);
    c.describe(cat(g.text(), " alpha=", alpha, " graphs=", N, " build=", CONFIG[cfg]));
    c.label(cat("d=", g.d)); c.label("w:" + g.weightKind); c.label("x:" + g.posKind); if (g.threads > 1) c.label("parallel"); c.label(CONFIG[cfg]);
    EdgeStats st(g.n);
    const int total = st.group("the whole graph");
    std::vector<int> vert; for (int v = 0; v < g.n; ++v) vert.push_back(st.group(cat("vertex ", v)));
    std::vector<int> bins; for (int b = 0; b < 27; ++b) bins.push_back(st.group(cat("probability class ", b)));
    std::vector<int> cls(size_t(g.n) * size_t(g.n)), own(cls.size());
    int open = 0;
    for (int u = 0; u < g.n; ++u) for (int v = u + 1; v < g.n; ++v) {
        double p = girgProb(g, u, v, alpha), lo = p, hi = p;
        const double ratio = double((long double)g.w[size_t(u)] * g.w[size_t(v)] / g.W / std::max(1e-300L, distPow(g.p[size_t(u)], g.p[size_t(v)])));
        const double eps = 1e-11 * (1 + alpha);
        // rounding of tiny distances is absolute in the coordinates
        const double dist = std::pow(double(distPow(g.p[size_t(u)], g.p[size_t(v)])), 1.0 / g.d);
        const double wob = dist > 0 ? std::min(1.0, 4e-16 / dist * alpha * g.d) : 0;
        if (ratio * (1 - eps) * (1 - std::min(0.9, wob)) >= 1) lo = hi = 1;
        else { lo = std::max(0.0, p * (1 - eps - 2 * wob) - CUT); hi = std::min(1.0, p * (1 + eps + 2 * wob)); }
        const int cl = p < 0.5 ? std::max(0, 20 + int(std::floor(std::log2(std::max(1e-300, p))))) : p < 0.6 ? 20 : p < 0.7 ? 21 : p < 0.8 ? 22 : p < 0.9 ? 23 : p < 0.99 ? 24 : p < 1 ? 25 : 26;
        const int own_ = st.group(cat("pair ", edgeText({u, v})));
        cls[size_t(u) * size_t(g.n) + size_t(v)] = bins[size_t(cl)]; own[size_t(u) * size_t(g.n) + size_t(v)] = own_;
        st.add({own_, total, bins[size_t(cl)], vert[size_t(u)], vert[size_t(v)]}, lo, hi);
        if (p * N > 5 && p < 1) ++open;
    }
    api.setThreads(g.threads);
    Rng seeds = s.bulk();
    st.run(c, seeds, N, std::max(1, g.threads), [&](const std::vector<int>& sd, const OnEdge& f) { api.tree(g.w, g.p, alpha, false, sd, f); },
        [&](int u, int v, std::vector<int>& out) {
            const auto i = size_t(u) * size_t(g.n) + size_t(v);
            out.push_back(own[i]); out.push_back(cls[i]); out.push_back(total); out.push_back(vert[size_t(u)]); out.push_back(vert[size_t(v)]);
        });
    c.count("graphs", N); c.count("pairs with 0<p<1", open); c.nontrivial(open > 0);
}

double treeCost(const GirgInst& g) { // cell pairs visited, roughly
    const double levels = std::max(0.0, std::floor((g.L - 2) / g.d));
    return 20 + std::min(std::exp2(levels * g.d), std::exp2(20.0)) * std::pow(3.0, g.d) / 2 + g.n * double(g.n) / 4 + (g.threads > 1 ? 200 + 400 * g.threads : 0);
}

void pairs(Source& s, Case& c) {
    GirgOpts o; o.minN = 2; o.maxSmall = 26; o.maxN = 26; o.smallShare = 100; o.maxThreads = 4; o.maxL = 11;
    auto g = genGirg(s, o);
    const double alpha = genAlpha(s);
    const int N = int(std::min(6000.0, std::max(300.0, (c.thorough ? 6e6 : 3e6) / treeCost(g))));
    judge(s, c, g, alpha, N);
}

/// few tight groups of points far apart: many pairs share one pair of cells, which is sampled by skipping
void blocks(Source& s, Case& c) {
    GirgInst g; g.d = int(s.range(1, 5)); g.threads = genThreads(s, 4);
    const int k = int(s.range(2, 4)), m = int(s.range(1, 12));
    g.n = k * m; g.weightKind = "near-equal"; g.posKind = "blocks";
    const double spread = std::exp2(-double(s.range(4, 12))), wv = s.pick({0.0, 0.5, 0.9});
    Pos centers; for (int i = 0; i < k; ++i) { centers.emplace_back(); for (int j = 0; j < g.d; ++j) centers.back().push_back((double(i) + 0.5) / k + (j ? s.real(-0.1, 0.1) : 0.0)); }
    for (int i = 0; i < g.n; ++i) {
        const size_t b = size_t(i % k);
        g.w.push_back(1 + wv * s.unit());
        g.p.emplace_back();
        for (int j = 0; j < g.d; ++j) { double x = centers[b][size_t(j)] + (s.unit() - 0.5) * spread; x -= std::floor(x); g.p.back().push_back(std::min(x, std::nextafter(1.0, 0.0))); }
    }
    // the scale of the weights such that typical pairs between blocks get a small probability
    const double alpha = genAlpha(s), target = std::exp2(-s.real(2.0, 8.0));
    const double dist = std::pow(double(distPow(g.p[0], g.p[1])), 1.0);
    const double q = std::pow(target, 1 / alpha) * dist;
    double sum = std::accumulate(g.w.begin(), g.w.end(), 0.0);
    double f = q * sum / (g.w[0] * g.w[1]); // weights times f give that q
    double L = std::log2(sum * f / (f * f));
    const double maxL = 10 + (g.d > 3 ? 1 : 0);
    if (L > maxL) { f *= std::exp2(L - maxL); L = maxL; }
    for (auto& x : g.w) x *= f;
    g.W = 0; for (auto x : g.w) g.W += x;
    g.L = std::log2(double(g.W)) - 2 * std::log2(*std::min_element(g.w.begin(), g.w.end()));
    const int N = int(std::min(12000.0, std::max(500.0, (c.thorough ? 1e7 : 5e6) / treeCost(g))));
    judge(s, c, g, alpha, N);
}

/// few points per cell and small probabilities, so that most pairs of cells expect far less than one edge
void sparse(Source& s, Case& c) {
    GirgInst g; g.d = s.chance(1, 20) ? 5 : int(s.range(1, 4)); g.threads = genThreads(s, 4); g.weightKind = "near layer tops"; g.posKind = "spread";
    g.n = int(s.logRange(4, 130));
    const int layers = int(s.range(1, 3));
    for (int i = 0; i < g.n; ++i) {
        g.w.push_back(std::exp2(double(s.range(0, layers - 1))) * s.real(1.7, 1.999));
        g.p.emplace_back();
        for (int j = 0; j < g.d; ++j) g.p.back().push_back(j == 0 ? (i + s.unit()) / g.n : std::min(s.unit(), std::nextafter(1.0, 0.0)));
        if (!(g.p.back()[0] < 1)) g.p.back()[0] = 0;
    }
    g.w[0] = 1; // the layers begin at powers of two
    double sum = std::accumulate(g.w.begin(), g.w.end(), 0.0);
    const double L = s.real(2.0 * g.d + 2, std::max(2.0 * g.d + 3, 11.0)), f = sum * std::exp2(-L);
    for (auto& x : g.w) x *= f;
    g.W = 0; for (auto x : g.w) g.W += x;
    g.L = std::log2(double(g.W)) - 2 * std::log2(*std::min_element(g.w.begin(), g.w.end()));
    // alpha such that pairs at distance 0.3 get the wanted probability
    const double q = 3 * f * f / double(g.W) / std::pow(0.3, g.d), target = std::exp2(-s.real(6.0, 15.0));
    const double alpha = q < 0.9 ? std::min(60.0, std::max(0.05, std::log(target) / std::log(q))) : genAlpha(s);
    const double cost = treeCost(g) + std::exp2(4.0 * g.d) / 2; // all pairs of cells of level 2 have touching parents
    const int N = int(std::min(60000.0, std::max(150.0, (c.thorough ? 3e7 : 1.5e7) / cost)));
    judge(s, c, g, alpha, N);
}

/// graphs with hundreds to thousands of vertices; pairs grouped by probability, distance, weights and location
void large(Source& s, Case& c) {
    GirgOpts o; o.minN = 100; o.maxSmall = 0; o.smallShare = 0; o.maxN = c.thorough ? 4000 : 2500; o.maxThreads = 8; o.maxL = 14;
    auto g = genGirg(s, o);
    const double alpha = genAlpha(s);
    const int cfg = int(s.weighted({1, 3}));
    auto& api = girg(CONFIG[cfg]);
    c.label(cat("d=", g.d)); c.label("w:" + g.weightKind); c.label("x:" + g.posKind); if (g.threads > 1) c.label("parallel"); c.label(CONFIG[cfg]);
    EdgeStats st(g.n);
    const double wmin = *std::min_element(g.w.begin(), g.w.end());
    std::vector<int> layer, cell;
    const int coarse = g.d == 1 ? 8 : g.d == 2 ? 3 : 2;
    for (int v = 0; v < g.n; ++v) {
        layer.push_back(std::min(5, int(std::log2(g.w[size_t(v)] / wmin))));
        int k = 0; for (double x : g.p[size_t(v)]) k = k * coarse + std::min(coarse - 1, int(x * coarse));
        cell.push_back(k % 32);
    }
    std::map<std::tuple<int, int, int>, int> id; // kind, a, b
    auto grp = [&](int kind, int a, int b) { auto key = std::make_tuple(kind, a, b); auto it = id.find(key); if (it == id.end()) it = id.emplace(key, st.group(cat(kind == 0 ? "probability/distance class " : kind == 1 ? "weight layer pair " : kind == 2 ? "region pair " : "vertex class ", a, "/", b))).first; return it->second; };
    auto members = [&](int u, int v, std::array<int, 4>& out) {
        const double t = double(distPow(g.p[size_t(u)], g.p[size_t(v)]));
        const double q = double((long double)g.w[size_t(u)] * g.w[size_t(v)] / g.W);
        const double p = q >= t ? 1 : std::pow(q / t, alpha);
        const int pc = p >= 1 ? 20 : std::max(0, 19 + int(std::floor(std::log2(p))));
        const int dc = t <= 0 ? -20 : std::max(-20, int(std::floor(std::log2(t))));
        const int a = std::min(layer[size_t(u)], layer[size_t(v)]), b = std::max(layer[size_t(u)], layer[size_t(v)]);
        const int x = std::min(cell[size_t(u)], cell[size_t(v)]), y = std::max(cell[size_t(u)], cell[size_t(v)]);
        out = {grp(0, pc, dc), grp(1, a * 8 + b, dc), grp(2, x, y), grp(3, (u * 7 + v * 7) % 16, pc)};
        return p;
    };
    double mean = 0; std::array<int, 4> o4;
    for (int u = 0; u < g.n; ++u) for (int v = u + 1; v < g.n; ++v) {
        const double p = members(u, v, o4); mean += p;
        const double t = double(distPow(g.p[size_t(u)], g.p[size_t(v)])), dist = std::pow(t, 1.0 / g.d);
        const double wob = 1e-10 * (1 + alpha) + (dist > 0 ? std::min(1.0, 1e-15 / dist * alpha * g.d) : 0);
        st.add({o4[0], o4[1], o4[2], o4[3]}, p >= 1 ? (p * (1 - wob) >= 1 ? 1 : 1 - std::min(1.0, wob)) : std::max(0.0, p * (1 - wob) - CUT), std::min(1.0, p * (1 + wob)));
    }
    if (mean > 1.2e6) c.skip();
    const int N = int(std::min(400.0, std::max(6.0, (c.thorough ? 4e7 : 8e6) / (treeCost(g) - g.n * double(g.n) / 4 + 6 * mean + 20.0 * g.n))));
    c.describe(cat(g.text(), " alpha=", alpha, " graphs=", N, " expected edges=", mean, " build=", CONFIG[cfg]));
    api.setThreads(g.threads);
    Rng seeds = s.bulk();
    std::mutex mx; const bool par = g.threads > 1;
    // group ids of edges are looked up, never created, while threads run concurrently
    st.run(c, seeds, N, std::max(1, g.threads), [&](const std::vector<int>& sd, const OnEdge& f) { api.tree(g.w, g.p, alpha, false, sd, f); },
        [&](int u, int v, std::vector<int>& out) { std::array<int, 4> k; (void)mx; (void)par; members(u, v, k); out.assign(k.begin(), k.end()); });
    c.count("graphs", N); c.count("expected edges", mean * N); c.nontrivial(mean > 1);
}

} // namespace

pbt::Property pbt::define() {
    return {"G02",
        "A case is an instance (small with arbitrary weights and positions; blocks of points sharing a cell pair; few points per cell and small probabilities; hundreds to thousands of vertices), alpha, thread count and build, sampled with many spread seeds; per-pair counts and counts of groups of pairs (vertex, probability class, distance, weight layers, region) are compared with the closed formula. Pairs of probability 1 must occur in every graph. Non-trivial: some pair with 0<p<1 is expected at least five times (large: more than one expected edge).",
        {"group statistics use the independence of the edges of one graph (checked by G03)", "losses below 1e-6 per pair are allowed for",
         "a deviation is reported only if its p-value bound is below 1e-9 on samples not used to find it; smaller deviations (about 4% of a probability near 0.5 for a single pair in one case) go unnoticed"},
        {{"pairs", 1500, 30000, pairs}, {"blocks", 800, 16000, blocks}, {"sparse", 200, 5000, sparse}, {"large", 120, 2500, large, 2}}, [] { girg("dbg"); girg("rel"); }};
}
