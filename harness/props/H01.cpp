// PLUGIN hrg dbg rel
#include "gen.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

void label(const HrgInst& h, Case& c, int cfg) {
    c.label("x:" + h.kind); if (h.threads > 1) c.label("parallel"); c.label(CONFIG[cfg]);
    c.label(h.R < 2 ? "R<2" : h.R < 8 ? "R<8" : "R>=8");
}
std::string why(const HrgInst& h, int u, int v) {
    auto d = coshDist(h.r[size_t(u)], h.phi[size_t(u)], h.r[size_t(v)], h.phi[size_t(v)]);
    return cat(" (distance ", double(acoshl(d.value)), ", R ", h.R, ")");
}

void small(Source& s, Case& c) {
    HrgOpts o; o.maxSmall = 20; o.maxN = 350; o.smallShare = 45; o.maxThreads = 16;
    auto h = genHrg(s, o);
    const int cfg = int(s.raw(2)); const int seed = genSeed(s);
    auto& api = hrg(CONFIG[cfg]);
    c.describe(cat(h.text(), " seed=", seed, " build=", CONFIG[cfg]));
    label(h, c, cfg);
    api.setThreads(h.threads);
    auto got = canonical(api.edges(h.r, h.phi, 0.0, h.R, seed), h.n, c, "threshold HRG");
    size_t i = 0; uint64_t edges = 0, non = 0, amb = 0;
    for (int u = 0; u < h.n; ++u) for (int v = u + 1; v < h.n; ++v) {
        const bool has = i < got.size() && got[i] == std::make_pair(u, v);
        if (has) ++i;
        const int want = hrgThreshold(h, u, v);
        if (want < 0) { ++amb; continue; }
        want ? ++edges : ++non;
        if (has != (want == 1)) c.fail(cat("pair ", edgeText({u, v}), has ? " is connected but not closer than R" : " is missing although closer than R", why(h, u, v)));
    }
    c.count("pairs", double(edges + non)); c.count("edges", double(edges)); c.count("undecided", double(amb));
    c.nontrivial(edges > 0 && non > 0);
}

void large(Source& s, Case& c) {
    HrgOpts o; o.minN = 500; o.maxSmall = 0; o.smallShare = 0; o.maxN = c.thorough ? 60000 : 12000; o.maxThreads = 16;
    auto h = genHrg(s, o);
    const int cfg = int(s.raw(2)); const int seed = genSeed(s);
    auto& api = hrg(CONFIG[cfg]);
    c.describe(cat(h.text(), " seed=", seed, " build=", CONFIG[cfg]));
    label(h, c, cfg);
    Rng r = s.bulk(); double hit = 0; const int tries = 5000;
    for (int i = 0; i < tries; ++i) { int u = int(r.below(uint64_t(h.n))), v = int(r.below(uint64_t(h.n))); if (u != v) hit += hrgThreshold(h, u, v) == 1; }
    if (hit / tries * h.n * double(h.n) / 2 > 5e6) c.skip();
    api.setThreads(h.threads);
    auto e = canonical(api.edges(h.r, h.phi, 0.0, h.R, seed), h.n, c, "threshold HRG");
    // double precision with hoisted sinh/cosh; only what looks wrong is judged in long double
    std::vector<double> ch(size_t(h.n)), sh(size_t(h.n));
    for (int i = 0; i < h.n; ++i) { ch[size_t(i)] = std::cosh(h.r[size_t(i)]); sh[size_t(i)] = std::sinh(h.r[size_t(i)]); }
    const double cR = std::cosh(h.R);
    auto fast = [&](int u, int v) { return ch[size_t(u)] * ch[size_t(v)] - sh[size_t(u)] * sh[size_t(v)] * std::cos(h.phi[size_t(u)] - h.phi[size_t(v)]) < cR; };
    for (auto& x : e) if (!fast(x.first, x.second) && hrgThreshold(h, x.first, x.second) == 0) c.fail(cat("pair ", edgeText(x), " is connected but not closer than R", why(h, x.first, x.second)));
    std::vector<std::vector<int>> adj(size_t(h.n));
    for (auto& x : e) { adj[size_t(x.first)].push_back(x.second); adj[size_t(x.second)].push_back(x.first); }
    std::vector<int> probes{int(std::min_element(h.r.begin(), h.r.end()) - h.r.begin())};
    const int k = std::min(h.n, c.thorough ? 1500 : 700);
    for (int i = 0; i < k; ++i) probes.push_back(int(r.below(uint64_t(h.n))));
    uint64_t edges = 0, checked = 0;
    for (int u : probes) {
        std::sort(adj[size_t(u)].begin(), adj[size_t(u)].end());
        for (int v = 0; v < h.n; ++v) if (v != u) {
            ++checked;
            if (!fast(u, v)) continue;
            if (!std::binary_search(adj[size_t(u)].begin(), adj[size_t(u)].end(), v)) { if (hrgThreshold(h, u, v) == 1) c.fail(cat("pair ", edgeText({u, v}), " is missing although closer than R", why(h, u, v))); }
            else ++edges;
        }
    }
    c.count("pairs", double(checked)); c.count("edges", double(e.size())); c.nontrivial(edges > 0 && edges < checked);
}

} // namespace

pbt::Property pbt::define() {
    return {"H01",
        "A case is a disc radius, a point set (radial law, uniform radius, layer and cell borders, extremes next to centre and border, clusters), a thread count, a seed and a build; every pair is compared with the long double hyperbolic distance (large: all pairs of sampled vertices and every reported edge). Non-trivial: both connected and unconnected pairs exist among the decided ones.",
        {"pairs whose distance equals R up to rounding (relative to cosh(r1)cosh(r2)) are not judged", "R >= 1, radii in [2.2e-8, R): what the library's own radius functions and sampler produce"},
        {{"small", 16000, 300000, small}, {"large", 150, 2500, large, 2}}, [] { hrg("dbg"); hrg("rel"); }};
}
