// PLUGIN girg dbg rel
#include "indep.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};
double levels(const GirgInst& g) { return std::max(0.0, std::floor((g.L - 2) / g.d)); }
double treeCost(const GirgInst& g) {
    return 20 + std::min(std::exp2(levels(g) * g.d), std::exp2(20.0)) * std::pow(3.0, g.d) / 2 + g.n * double(g.n) / 4 + (g.threads > 1 ? 200 + 400 * g.threads : 0);
}
int genDelta(Source& s) { return s.weighted({1, 1}) ? 1 << s.range(8, 29) : int(s.range(64, 100000)); }

/// every two edges of a small graph, and of two graphs with different seeds
void pairs(Source& s, Case& c) {
    GirgOpts o; o.minN = 4; o.maxSmall = 18; o.maxN = 18; o.smallShare = 100; o.maxThreads = 8; o.maxL = 11;
    auto g = genGirg(s, o);
    if (s.chance(2, 3)) { // evenly spread points keep many pairs undecided
        if (s.chance(1, 2)) for (int i = 0; i < g.n; ++i) for (int j = 0; j < g.d; ++j) g.p[size_t(i)][size_t(j)] = j ? s.unit() : (i + 0.5) / g.n;
        g.posKind = "spread";
    }
    const double alpha = std::min(genAlpha(s), 4.0);
    const int cfg = int(s.weighted({1, 3})), delta = genDelta(s);
    const int N = 2 * int(std::min(4096.0, std::max(256.0, (c.thorough ? 6e6 : 3e6) / treeCost(g) / 2)));
    auto& api = girg(CONFIG[cfg]);
    c.describe(cat(g.text(), " alpha=", alpha, " delta=", delta, " graphs=", N, " build=", CONFIG[cfg]));
    c.label(cat("d=", g.d)); if (g.threads > 1) c.label("parallel"); c.label("x:" + g.posKind);
    std::vector<std::pair<int, int>> open; std::vector<int> var(size_t(g.n * g.n), -1);
    for (int u = 0; u < g.n; ++u) for (int v = u + 1; v < g.n; ++v) {
        const double p = girgProb(g, u, v, alpha);
        if (p * N < 3 || (1 - p) * N < 3) continue;
        var[size_t(u * g.n + v)] = int(open.size()); open.emplace_back(u, v);
    }
    std::vector<std::pair<int, int>> within, across;
    for (int a = 0; a < int(open.size()); ++a) for (int b = 0; b < int(open.size()); ++b) { if (a < b) within.emplace_back(a, b); across.emplace_back(a, b); }
    c.nontrivial(open.size() >= 2);
    if (open.empty()) return;
    api.setThreads(g.threads);
    Presence pr(int(open.size()), g.threads, [&](int u, int v) { return var[size_t(u * g.n + v)]; });
    Rng rng = s.bulk();
    testIndependence(c, rng, N, delta, pr, within, across, [&](const std::vector<int>& sd, const OnEdge& f) { api.tree(g.w, g.p, alpha, false, sd, f); }, [&](int a) { return edgeText(open[size_t(a)]); });
    c.count("graphs", N);
}

/// translated copies of one pattern: threads with related random numbers would decide corresponding edges alike
void copies(Source& s, Case& c) {
    GirgInst g; g.d = int(s.range(1, 3)); g.threads = int(s.range(1, 8)); if (g.threads == 1) g.threads = 4;
    const int j = g.d == 1 ? int(s.range(2, 5)) : g.d == 2 ? int(s.range(1, 2)) : 1;
    const int side = 1 << j; int regions = 1; for (int i = 0; i < g.d; ++i) regions *= side;
    const int m = int(s.range(3, regions > 16 ? 6 : 12));
    g.n = regions * m; g.posKind = "copies"; g.weightKind = "pattern";
    Vec pw; Pos pp;
    for (int i = 0; i < m; ++i) { pw.push_back(s.chance(1, 4) ? 1 + 2 * s.unit() : 1); pp.emplace_back(); for (int k = 0; k < g.d; ++k) pp.back().push_back(s.unit() / side); }
    for (int r = 0; r < regions; ++r) for (int i = 0; i < m; ++i) { g.w.push_back(pw[size_t(i)]); g.p.push_back(pp[size_t(i)]); int x = r; for (int k = 0; k < g.d; ++k) { g.p.back()[size_t(k)] += double(x % side) / side; x /= side; } }
    // scale: a typical pair inside a copy has probability around one half
    const double alpha = s.pick({1.2, 1.5, 2.0, 3.0});
    std::vector<double> ds; for (int a = 0; a < m; ++a) for (int b = a + 1; b < m; ++b) ds.push_back(double(distPow(pp[size_t(a)], pp[size_t(b)])));
    std::sort(ds.begin(), ds.end());
    const double sum = std::accumulate(g.w.begin(), g.w.end(), 0.0);
    double f = ds[ds.size() / 3] * 0.6 * sum;
    const double L = std::log2(sum / f), cap = 12;
    if (L > cap) f *= std::exp2(L - cap);
    if (!(f > 0)) c.skip();
    for (auto& x : g.w) x *= f;
    g.W = sum * f; g.L = std::log2(sum / f);
    const int cfg = int(s.weighted({1, 3})), delta = genDelta(s);
    const int N = 2 * int(std::min(1500.0, std::max(300.0, (c.thorough ? 2.4e7 : 1.2e7) / (treeCost(g) - g.n * double(g.n) / 4 + 20 * g.n) / 2)));
    auto& api = girg(CONFIG[cfg]);
    c.describe(cat(g.text(), " copies=", regions, " of ", m, " points, alpha=", alpha, " delta=", delta, " graphs=", N, " build=", CONFIG[cfg]));
    c.label(cat("d=", g.d)); c.label(cat("threads=", g.threads));
    api.setThreads(g.threads);
    std::vector<std::pair<int, int>> pat;
    for (int a = 0; a < m; ++a) for (int b = a + 1; b < m; ++b) { const double p = girgProb(g, a, b, alpha); if (p > 0.03 && p < 0.97) pat.emplace_back(a, b); }
    if (pat.size() > 24) pat.resize(24);
    if (pat.empty()) c.skip();
    std::vector<int> idx(size_t(m * m), -1); for (size_t i = 0; i < pat.size(); ++i) idx[size_t(pat[i].first * m + pat[i].second)] = int(i);
    const int P = int(pat.size());
    Presence pr(P * regions, g.threads, [&](int u, int v) { if (u / m != v / m) return -1; const int k = idx[size_t((u % m) * m + v % m)]; return k < 0 ? -1 : k * regions + u / m; });
    std::vector<std::pair<int, int>> within, across;
    for (int k = 0; k < P; ++k) for (int a = 0; a < regions; ++a) for (int b = 0; b < regions; ++b) { if (a < b) within.emplace_back(k * regions + a, k * regions + b); across.emplace_back(k * regions + a, k * regions + b); }
    Rng rng = s.bulk();
    auto sample = [&](const std::vector<int>& sd, const OnEdge& fn) { api.tree(g.w, g.p, alpha, false, sd, fn); };
    testIndependence(c, rng, N, delta, pr, within, across, sample, [&](int v) { const int k = v / regions, r = v % regions; return edgeText({r * m + pat[size_t(k)].first, r * m + pat[size_t(k)].second}); });
    // numbers of edges inside the copies
    testCorrelation(c, [&](int k) {
        std::vector<std::vector<double>> cnt(size_t(regions), std::vector<double>(size_t(k), 0)); std::mutex mx;
        std::vector<int> sd; for (int i = 0; i < k; ++i) sd.push_back(int(rng.next() >> 34));
        sample(sd, [&](size_t run, int u, int v, int) { if (u / m == v / m) { std::lock_guard<std::mutex> l(mx); cnt[size_t(u / m)][run] += 1; } });
        return cnt;
    }, N / 2, "copies");
    c.count("graphs", N); c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"G03",
        "A case is an instance, alpha, thread count and build, sampled with many spread seeds that come in pairs (s, s+delta): joint presence of every two edges of a small graph, of an edge of one graph and an edge of the other, and of corresponding edges and edge counts in translated copies of one pattern are compared with the product of the margins. Non-trivial: at least two edges with 0<p<1.",
        {"dependence between two edges is looked for, not higher order dependence with pairwise independence", "delta >= 64, because the documented per-thread seed is seed + thread",
         "reported only if the p-value bound is below 1e-10 on fresh samples (correlation of counts: 8 standard deviations)"},
        {{"pairs", 700, 14000, pairs}, {"copies", 150, 4000, copies, 2}}, [] { girg("dbg"); girg("rel"); }};
}
