// PLUGIN hrg dbg rel
#include "indep.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};
double treeCost(const HrgInst& h) { const double levels = std::max(0.0, (h.R - 2) / std::log(2.0) * 0.5 + 2); return 40 + 6 * std::exp2(std::min(levels, 14.0)) * 3 + (h.threads > 1 ? 20000 + 6000.0 * h.threads : 0); }
int genDelta(Source& s) { return s.weighted({2, 1, 1}) == 0 ? 1 << s.range(0, 29) : int(s.range(1, 100000)); }

void pairs(Source& s, Case& c) {
    HrgOpts o; o.minN = 4; o.maxSmall = 18; o.maxN = 18; o.smallShare = 100; o.maxThreads = 8; o.maxR = 12;
    auto h = genHrg(s, o);
    if (s.chance(1, 2)) { for (int i = 0; i < h.n; ++i) h.phi[size_t(i)] = (i + 0.5 * s.unit()) / h.n * 2 * PI; h.kind = "spread"; }
    const double T = std::max(0.2, genT(s));
    const int cfg = int(s.weighted({1, 3})), delta = genDelta(s);
    const int N = 2 * int(std::min(4096.0, std::max(256.0, (c.thorough ? 4e7 : 2e7) / (treeCost(h) + h.n * double(h.n) / 4) / 2)));
    auto& api = hrg(CONFIG[cfg]);
    c.describe(cat(h.text(), " T=", T, " delta=", delta, " graphs=", N, " build=", CONFIG[cfg]));
    if (h.threads > 1) c.label("parallel"); c.label("x:" + h.kind);
    std::vector<std::pair<int, int>> open; std::vector<int> var(size_t(h.n * h.n), -1);
    for (int u = 0; u < h.n; ++u) for (int v = u + 1; v < h.n; ++v) {
        const double p = hrgProb(h, u, v, T).second;
        if (p * N < 3 || (1 - p) * N < 3) continue;
        var[size_t(u * h.n + v)] = int(open.size()); open.emplace_back(u, v);
    }
    std::vector<std::pair<int, int>> within, across;
    for (int a = 0; a < int(open.size()); ++a) for (int b = 0; b < int(open.size()); ++b) { if (a < b) within.emplace_back(a, b); across.emplace_back(a, b); }
    c.nontrivial(open.size() >= 2);
    if (open.empty()) return;
    api.setThreads(h.threads);
    Presence pr(int(open.size()), h.threads, [&](int u, int v) { return var[size_t(u * h.n + v)]; });
    Rng rng = s.bulk();
    testIndependence(c, rng, N, delta, pr, within, across, [&](const std::vector<int>& sd, const OnEdge& f) { api.tree(h.r, h.phi, T, h.R, false, sd, f); }, [&](int a) { return edgeText(open[size_t(a)]); });
    c.count("graphs", N);
}

/// rotated copies of one pattern
void copies(Source& s, Case& c) {
    HrgInst h; h.threads = int(s.range(1, 8)); if (h.threads == 1) h.threads = 4;
    const int regions = 1 << s.range(2, 5), m = int(s.range(3, 8));
    h.n = regions * m; h.kind = "copies";
    h.R = s.real(2.5, 9.0);
    Vec pr_, pa;
    for (int i = 0; i < m; ++i) { pr_.push_back(h.R - s.unit() * std::min(h.R / 2, 3.0) - 1e-6); pa.push_back(s.unit() * 2 * PI / regions); }
    for (int r = 0; r < regions; ++r) for (int i = 0; i < m; ++i) { h.r.push_back(pr_[size_t(i)]); h.phi.push_back(std::min(pa[size_t(i)] + 2 * PI * r / regions, std::nextafter(2 * PI, 0.0))); }
    const double T = s.pick({0.5, 0.3, 0.7, 0.9});
    const int cfg = int(s.weighted({1, 3})), delta = genDelta(s);
    const int N = 2 * int(std::min(1500.0, std::max(300.0, (c.thorough ? 1.2e8 : 6e7) / (treeCost(h) + 60.0 * h.n) / 2)));
    auto& api = hrg(CONFIG[cfg]);
    c.describe(cat(h.text(), " copies=", regions, " of ", m, " points, T=", T, " delta=", delta, " graphs=", N, " build=", CONFIG[cfg]));
    c.label(cat("threads=", h.threads));
    api.setThreads(h.threads);
    std::vector<std::pair<int, int>> pat;
    for (int a = 0; a < m; ++a) for (int b = a + 1; b < m; ++b) { const double p = hrgProb(h, a, b, T).second; if (p > 0.03 && p < 0.97) pat.emplace_back(a, b); }
    if (pat.size() > 24) pat.resize(24);
    if (pat.empty()) c.skip();
    std::vector<int> idx(size_t(m * m), -1); for (size_t i = 0; i < pat.size(); ++i) idx[size_t(pat[i].first * m + pat[i].second)] = int(i);
    const int P = int(pat.size());
    Presence pr(P * regions, h.threads, [&](int u, int v) { if (u / m != v / m) return -1; const int k = idx[size_t((u % m) * m + v % m)]; return k < 0 ? -1 : k * regions + u / m; });
    std::vector<std::pair<int, int>> within, across;
    for (int k = 0; k < P; ++k) for (int a = 0; a < regions; ++a) for (int b = 0; b < regions; ++b) { if (a < b) within.emplace_back(k * regions + a, k * regions + b); across.emplace_back(k * regions + a, k * regions + b); }
    Rng rng = s.bulk();
    auto sample = [&](const std::vector<int>& sd, const OnEdge& fn) { api.tree(h.r, h.phi, T, h.R, false, sd, fn); };
    testIndependence(c, rng, N, delta, pr, within, across, sample, [&](int v) { const int k = v / regions, r = v % regions; return edgeText({r * m + pat[size_t(k)].first, r * m + pat[size_t(k)].second}); });
    testCorrelation(c, [&](int k) {
        std::vector<std::vector<double>> cnt(size_t(regions), std::vector<double>(size_t(k), 0)); std::mutex mx;
        std::vector<int> sd; for (int i = 0; i < k; ++i) sd.push_back(int(rng.next() >> 34));
        sample(sd, [&](size_t run, int u, int v, int) { if (u / m == v / m) { std::lock_guard<std::mutex> l(mx); cnt[size_t(u / m)][run] += 1; } });
        return cnt;
    }, N / 2, "copies");
    c.count("graphs", N); c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"H03",
        "A case is a point set, T, thread count and build, sampled with many spread seeds that come in pairs (s, s+delta): joint presence of every two edges of a small graph, of an edge of one graph and an edge of the other, and of corresponding edges and edge counts in rotated copies of one pattern are compared with the product of the margins. Non-trivial: at least two edges with 0<p<1.",
        {"dependence between two edges is looked for, not higher order dependence with pairwise independence",
         "reported only if the p-value bound is below 1e-10 on fresh samples (correlation of counts: 8 standard deviations)"},
        {{"pairs", 500, 14000, pairs}, {"copies", 110, 4000, copies, 2}}, [] { hrg("dbg"); hrg("rel"); }};
}
