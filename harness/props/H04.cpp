// PLUGIN hrg dbg rel
#include "gen.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

void checkBoth(const Hrg& api, HrgInst& h, double T, int seed, Case& c, Edges& out) {
    api.setThreads(h.threads);
    const int maxT = api.maxThreads();
    auto list = canonical(api.edges(h.r, h.phi, T, h.R, seed), h.n, c, "edge list");
    Collector col(1, maxT);
    api.tree(h.r, h.phi, T, h.R, false, {seed}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
    if (col.badTid()) c.fail(cat("callback got thread id ", col.theBadTid(), " with at most ", maxT, " threads"));
    auto cb = canonical(col.run(0), h.n, c, "callback");
    if (cb != list) {
        Edges a, b; std::set_difference(cb.begin(), cb.end(), list.begin(), list.end(), std::back_inserter(a)); std::set_difference(list.begin(), list.end(), cb.begin(), cb.end(), std::back_inserter(b));
        c.fail(cat("the edge list has ", list.size(), " edges, the callback got ", cb.size(), a.empty() ? "" : "; lost " + edgeText(a[0]), b.empty() ? "" : "; invented " + edgeText(b[0])));
    }
    out = std::move(list);
}

void simple(Source& s, Case& c) {
    HrgOpts o; o.maxSmall = 20; o.maxN = 600; o.smallShare = 50; o.maxThreads = 16;
    auto h = genHrg(s, o);
    const double T = s.chance(1, 4) ? 0 : genT(s);
    const int cfg = int(s.raw(2)), seed = genSeed(s);
    c.describe(cat(h.text(), " T=", T, " seed=", seed, " build=", CONFIG[cfg]));
    if (h.threads > 1) c.label("parallel"); c.label(T == 0 ? "threshold" : "T>0"); c.label("x:" + h.kind);
    Edges e; checkBoth(hrg(CONFIG[cfg]), h, T, seed, c, e);
    c.count("edges", double(e.size())); c.nontrivial(!e.empty());
}

void many(Source& s, Case& c) {
    HrgInst h; h.threads = genThreads(s, 8); h.kind = "groups"; h.R = s.real(8.0, 14.0);
    const long long base = 1ll << s.range(14, c.thorough ? 22 : 21);
    long long want = std::max(1ll, s.pick({base, 2 * base + 5, base - 1, base + 1, base + base / 2, 3 * base}));
    want = std::min(want, c.thorough ? 12000000ll : 4400000ll);
    std::vector<int> size; long long rest = want;
    const long long share = s.pick({1, 1, 2, 3}); // large groups of about the same size, for different threads
    while (rest > 0) { long long k = (1 + (long long)std::sqrt(1.0 + 8.0 * double(std::min(rest, (want + share - 1) / share)))) / 2; while (k * (k - 1) / 2 > rest) --k; size.push_back(int(k)); rest -= k * (k - 1) / 2; }
    const double r0 = h.R - 0.5;
    if (size.size() > 1 && double(acoshl(coshDist(r0, 0, r0, 2 * PI / double(size.size())).value)) < h.R + 0.1) c.skip();
    for (size_t i = 0; i < size.size(); ++i) for (int k = 0; k < size[i]; ++k) { h.r.push_back(r0); h.phi.push_back((double(i) + 0.37) / double(size.size()) * 2 * PI); }
    h.n = int(h.r.size());
    if (s.chance(1, 2)) { Rng r = s.bulk(); for (int i = h.n - 1; i > 0; --i) std::swap(h.phi[size_t(i)], h.phi[r.below(uint64_t(i + 1))]); }
    const int seed = genSeed(s);
    c.describe(cat(h.text(), " edges wanted=", want, " groups=", size.size(), " seed=", seed));
    if (h.threads > 1) c.label("parallel"); if (want >= (1 << 20)) c.label("over 2^20 edges"); if (share > 1) c.label("several large groups");
    Edges e; checkBoth(hrg("rel"), h, 0, seed, c, e);
    if ((long long)e.size() != want) c.fail(cat("expected ", want, " edges, got ", e.size()));
    c.count("edges", double(e.size())); c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"H04",
        "A case is a point set, T (0 or in (0,1)), a thread count, a seed and a build: edge list and callback are checked for ids, loops, duplicates, thread ids and equality with each other; graphs built to have a chosen number of edges (around powers of two up to 4 million) must have exactly that many. Non-trivial: the graph has an edge.",
        {"R >= 1, radii in [2.2e-8, R)"}, {{"simple", 12000, 250000, simple}, {"many", 60, 800, many, 2}}, [] { hrg("dbg"); hrg("rel"); }};
}
