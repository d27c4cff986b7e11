// PLUGIN girg dbg rel
#include "gen.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

void checkBoth(const Girg& api, const GirgInst& g, double alpha, int seed, Case& c, Edges& out) {
    api.setThreads(g.threads);
    const int maxT = api.maxThreads();
    auto list = canonical(api.edges(g.w, g.p, alpha, seed), g.n, c, "edge list");
    Collector col(1, maxT);
    api.tree(g.w, g.p, alpha, false, {seed}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
    if (col.badTid()) c.fail(cat("callback got thread id ", col.theBadTid(), " with at most ", maxT, " threads"));
    auto cb = canonical(col.run(0), g.n, c, "callback");
    if (cb != list) {
        Edges a, b; std::set_difference(cb.begin(), cb.end(), list.begin(), list.end(), std::back_inserter(a)); std::set_difference(list.begin(), list.end(), cb.begin(), cb.end(), std::back_inserter(b));
        c.fail(cat("the edge list has ", list.size(), " edges, the callback got ", cb.size(), a.empty() ? "" : "; lost " + edgeText(a[0]), b.empty() ? "" : "; invented " + edgeText(b[0])));
    }
    out = std::move(list);
}

void simple(Source& s, Case& c) {
    GirgOpts o; o.maxSmall = 20; o.maxN = 600; o.smallShare = 50; o.maxThreads = 16;
    auto g = genGirg(s, o);
    const int mode = int(s.weighted({3, 6, 1}));
    const double alpha = mode == 0 ? INF : mode == 1 ? genAlpha(s) : s.pick({0.0, 1e-9, 300.0});
    const int cfg = int(s.raw(2)), seed = genSeed(s);
    c.describe(cat(g.text(), " alpha=", alpha, " seed=", seed, " build=", CONFIG[cfg]));
    c.label(cat("d=", g.d)); if (g.threads > 1) c.label("parallel"); c.label(mode == 0 ? "threshold" : alpha == 0 ? "alpha=0" : "finite alpha"); c.label("w:" + g.weightKind); c.label("x:" + g.posKind);
    Edges e; checkBoth(girg(CONFIG[cfg]), g, alpha, seed, c, e);
    if (alpha == 0 && e.size() != size_t(g.n) * size_t(g.n - 1) / 2) c.fail(cat("alpha = 0 gives ", e.size(), " edges instead of the complete graph"));
    c.count("edges", double(e.size())); c.nontrivial(!e.empty());
}

void clique(Source& s, Case& c) {
    GirgOpts o; o.maxSmall = 16; o.maxN = 400; o.smallShare = 50; o.maxThreads = 16;
    auto g = genGirg(s, o);
    const bool zero = s.chance(1, 2);
    double alpha = 0;
    if (!zero) { // scale such that the two lightest vertices at the largest possible distance are certain
        Vec w = g.w; std::sort(w.begin(), w.end());
        const double lightest = g.n > 1 ? w[0] * w[1] : w[0] * w[0];
        const double f = std::exp2(-g.d) * double(g.W) / lightest * std::exp2(s.real(0.001, 8));
        for (auto& x : g.w) x *= f;
        g.W = 0; for (auto x : g.w) g.W += x;
        g.L = std::log2(double(g.W) / (*std::min_element(g.w.begin(), g.w.end())) / (*std::min_element(g.w.begin(), g.w.end())));
        alpha = s.chance(1, 3) ? INF : genAlpha(s);
    }
    const int cfg = int(s.raw(2)), seed = genSeed(s);
    c.describe(cat(g.text(), " alpha=", alpha, " seed=", seed, " build=", CONFIG[cfg]));
    c.label(cat("d=", g.d)); if (g.threads > 1) c.label("parallel"); c.label(zero ? "alpha=0" : "saturated");
    Edges e; checkBoth(girg(CONFIG[cfg]), g, alpha, seed, c, e);
    if (e.size() != size_t(g.n) * size_t(g.n - 1) / 2) c.fail(cat("expected the complete graph with ", size_t(g.n) * size_t(g.n - 1) / 2, " edges, got ", e.size()));
    c.count("edges", double(e.size())); c.nontrivial(g.n >= 2);
}

/// graphs with a chosen number of edges around what internal buffers may hold
void many(Source& s, Case& c) {
    GirgInst g; g.d = int(s.range(1, 3)); g.threads = genThreads(s, 8); g.weightKind = "equal"; g.posKind = "groups";
    const long long base = 1ll << s.range(14, c.thorough ? 22 : 21);
    long long want = std::max(1ll, s.pick({base, 2 * base + 5, base - 1, base + 1, base + base / 2, 3 * base}));
    want = std::min(want, c.thorough ? 12000000ll : 4400000ll);
    std::vector<int> size; long long rest = want;
    const long long share = s.pick({1, 1, 2, 3}); // large groups of about the same size, for different threads
    while (rest > 0) { long long k = (1 + (long long)std::sqrt(1.0 + 8.0 * double(std::min(rest, (want + share - 1) / share)))) / 2; while (k * (k - 1) / 2 > rest) --k; size.push_back(int(k)); rest -= k * (k - 1) / 2; }
    // groups sit at different places of a line; members of a group share one place
    for (size_t i = 0; i < size.size(); ++i) for (int k = 0; k < size[i]; ++k) g.p.emplace_back(size_t(g.d), (double(i) + 0.37) / double(size.size()));
    g.n = int(g.p.size());
    const double L = 10 + 3.0 * std::log2(double(size.size()) + 1) * (g.d > 1 ? 1 : 0);
    const double w = g.n / std::exp2(std::min(L, g.d == 1 ? 12.0 : 15.0));
    g.w.assign(size_t(g.n), w); g.W = (long double)w * g.n; g.L = std::log2(double(g.n) / w);
    if (size.size() > 1 && std::pow(1.0 / double(size.size()), g.d) <= 1.5 * w * w / double(g.W)) c.skip();
    if (s.chance(1, 2)) { Rng r = s.bulk(); for (int i = g.n - 1; i > 0; --i) std::swap(g.p[size_t(i)], g.p[r.below(uint64_t(i + 1))]); }
    const int seed = genSeed(s);
    c.describe(cat(g.text(), " edges wanted=", want, " groups=", size.size(), " seed=", seed));
    c.label(cat("d=", g.d)); if (g.threads > 1) c.label("parallel"); if (want >= (1 << 20)) c.label("over 2^20 edges"); if (share > 1) c.label("several large groups");
    Edges e; checkBoth(girg("rel"), g, INF, seed, c, e);
    if ((long long)e.size() != want) c.fail(cat("expected ", want, " edges, got ", e.size()));
    c.count("edges", double(e.size())); c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"G04",
        "A case is an instance, alpha (infinity, finite, 0), a thread count, a seed and a build: edge list and callback are checked for ids, loops, duplicates, thread ids and equality with each other; saturating weights and alpha = 0 must give the complete graph; graphs built to have a chosen number of edges (around powers of two up to 4 million) must have exactly that many. Non-trivial: the graph has an edge.",
        {}, {{"simple", 12000, 250000, simple}, {"clique", 2500, 50000, clique}, {"many", 60, 800, many, 2}}, [] { girg("dbg"); girg("rel"); }};
}
