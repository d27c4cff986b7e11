// Executes one call in several variants of the library and compares the results.
#pragma once
#include "history.h"
using namespace vp;

namespace {

std::vector<std::string> girgConfigs();
std::vector<std::string> hrgConfigs();
void beforeRun(size_t); ///< called before the case is executed in that configuration

template <typename Api>
void same(Case& c, const std::vector<std::string>& configs, const Api& (*get)(const std::string&), int threads, const std::string& what, const std::function<Result(const Api&)>& run) {
    Result first;
    for (size_t i = 0; i < configs.size(); ++i) {
        auto& api = get(configs[i]);
        api.setThreads(threads); beforeRun(i);
        auto r = run(api);
        beforeRun(0); if (i == 0) first = std::move(r);
        else if (r != first) c.fail(cat(what, " of the variants ", configs[0], " and ", configs[i], " differ: ", firstDifference(first, r)));
    }
    c.nontrivial(first.size() > 2); c.count("variants compared", double(configs.size()));
    if (first.size() > 1) c.count("edges or values", double(first.size() - 1));
}

/// keeps the number of edges of large instances down
double density(Rng& r, int n, const std::function<double(int, int)>& prob) {
    double hit = 0; for (int i = 0; i < 4000; ++i) { const int u = int(r.below(uint64_t(n))), v = int(r.below(uint64_t(n))); if (u != v) hit += prob(u, v); }
    return hit / 4000 * n * double(n) / 2;
}

void girgEdges(Source& s, Case& c, bool large) {
    GirgOpts o; o.maxSmall = large ? 0 : 16; o.maxN = large ? 9000 : 500; o.minN = large ? 500 : 1; o.smallShare = large ? 0 : 40;
    auto g = genGirg(s, o);
    double alpha = s.chance(1, 4) ? INF : genAlpha(s);
    if (large) alpha = std::max(alpha, 1.2);
    const int seed = genSeed(s); const bool tree = s.chance(1, 2), profile = tree && s.chance(1, 3);
    c.describe(cat(g.text(), " alpha=", alpha, " seed=", seed, tree ? " generator object" : " edge list"));
    c.label(cat("d=", g.d)); c.label(g.threads > 1 ? "parallel" : "sequential"); c.label(alpha == INF ? "threshold" : "finite alpha"); c.label("w:" + g.weightKind); c.label("x:" + g.posKind);
    if (large) { Rng r = s.bulk(); if (density(r, g.n, [&](int u, int v) { return alpha == INF ? double(girgThreshold(g, u, v) != 0) : girgProb(g, u, v, alpha); }) > 4e5) c.skip(); }
    same<Girg>(c, girgConfigs(), girg, g.threads, "GIRGs", [&](const Girg& api) {
        if (!tree) return ofEdges(api.edges(g.w, g.p, alpha, seed), g.threads == 1);
        Collector col(1, api.maxThreads());
        api.tree(g.w, g.p, alpha, profile, {seed}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
        return ofEdges(col.run(0), g.threads == 1);
    });
}

/// levels with many more cells than points: coordinates and codes beyond 16 bits
void girgDeep(Source& s, Case& c) {
    GirgOpts o; o.maxSmall = 0; o.maxN = 400; o.minN = 2; o.smallShare = 0; o.maxL = 12; o.dims = 3;
    auto g = genGirg(s, o);
    static const double most[] = {0, 20.5, 19, 17};
    const double L = s.real(16, c.thorough ? most[g.d] + 1 : most[g.d]), scale = std::exp2(g.L - L);
    for (auto& x : g.w) x *= scale;
    g.W = 0; for (auto x : g.w) g.W += x;
    g.L = L;
    const double alpha = s.chance(1, 3) ? INF : std::max(1.2, genAlpha(s));
    const int seed = genSeed(s);
    c.describe(cat(g.text(), " alpha=", alpha, " seed=", seed)); c.label(cat("d=", g.d)); c.label("x:" + g.posKind); c.label(alpha == INF ? "threshold" : "finite alpha");
    same<Girg>(c, girgConfigs(), girg, g.threads, "GIRGs", [&](const Girg& api) { return ofEdges(api.edges(g.w, g.p, alpha, seed), g.threads == 1); });
}

void girgValues(Source& s, Case& c) {
    const int threads = genThreads(s, 8), seed = genSeed(s), what = int(s.raw(3)); const bool par = s.chance(2, 3);
    const int n = s.chance(1, 5) ? int(s.pick({20000, 30001, 79999, 80000, 90001})) : int(s.logRange(1, 5000)), d = int(s.range(1, 5));
    const double ple = s.chance(1, 3) ? s.pick({2.5, 2.1, 3.0, 1.5}) : s.real(1.05, 6);
    c.label(what == 0 ? "weights" : what == 1 ? "positions" : "scaling"); c.label(threads > 1 ? "parallel" : "sequential");
    if (what < 2) {
        c.describe(cat(what ? "positions n=" : "weights n=", n, " d=", d, " ple=", ple, " seed=", seed, " threads=", threads, par ? " parallel" : ""));
        same<Girg>(c, girgConfigs(), girg, threads, what ? "positions" : "weights", [&](const Girg& api) { return what ? ofPos(api.positions(n, d, seed, par)) : ofVec(api.weights(n, ple, seed, par)); });
        return;
    }
    // with several threads the sums over all weights are rounded differently
    const int m = std::max(2, std::min(n, 3000)); const double deg = std::min(s.real(0.5, 60), 0.5 * (m - 1)), alpha = s.chance(1, 3) ? INF : s.pick({1.5, 2.0, 3.0, 0.5, 7.5, 20.0, 1.05});
    c.describe(cat("scaling n=", m, " d=", d, " ple=", std::max(ple, 2.0), " seed=", seed, " degree=", deg, " alpha=", alpha));
    const auto w = girg(girgConfigs()[0]).weights(m, std::max(ple, 2.0), seed, false);
    same<Girg>(c, girgConfigs(), girg, 1, "scaled weights", [&](const Girg& api) { auto v = w; double f = 0; auto e = api.scale(v, deg, d, alpha, &f); if (!e.empty()) return Result{1, 2, 3, 4}; v.push_back(f); return ofVec(v); });
}

void hrgEdges(Source& s, Case& c, bool large) {
    HrgOpts o; o.maxSmall = large ? 0 : 16; o.maxN = large ? 9000 : 500; o.minN = large ? 500 : 1; o.smallShare = large ? 0 : 40;
    auto h = genHrg(s, o);
    const double T = s.chance(1, 4) ? 0 : genT(s);
    const int seed = genSeed(s); const bool tree = s.chance(1, 2), profile = tree && s.chance(1, 3);
    c.describe(cat(h.text(), " T=", T, " seed=", seed, tree ? " generator object" : " edge list"));
    c.label(h.threads > 1 ? "parallel" : "sequential"); c.label(T == 0 ? "threshold" : "T > 0"); c.label(h.kind);
    if (large) { Rng r = s.bulk(); if (density(r, h.n, [&](int u, int v) { return T == 0 ? double(hrgThreshold(h, u, v) != 0) : hrgProb(h, u, v, T).second; }) > 4e5) c.skip(); }
    same<Hrg>(c, hrgConfigs(), hrg, h.threads, "HRGs", [&](const Hrg& api) {
        if (!tree) return ofEdges(api.edges(h.r, h.phi, T, h.R, seed), h.threads == 1);
        Collector col(1, api.maxThreads());
        api.tree(h.r, h.phi, T, h.R, profile, {seed}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
        return ofEdges(col.run(0), h.threads == 1);
    });
}

void hrgValues(Source& s, Case& c) {
    const int threads = genThreads(s, 8), seed = genSeed(s), what = int(s.raw(5)); const bool par = s.chance(2, 3);
    const int n = s.chance(1, 5) ? int(s.pick({10001, 20000, 30001, 79999, 80001})) : int(s.logRange(1, 5000));
    const double alpha = s.chance(1, 2) ? s.pick({0.75, 1.0, 0.51, 0.6}) : s.real(0.501, 1), R = s.chance(1, 2) ? s.real(0.2, 40) : s.real(5, 25), T = s.chance(1, 4) ? 0 : genT(s), deg = s.real(1, 30);
    c.label(what == 0 ? "radii" : what == 1 ? "angles" : what == 2 ? "both" : "disc radius"); c.label(threads > 1 ? "parallel" : "sequential");
    c.describe(cat(what == 0 ? "radii" : what == 1 ? "angles" : what == 2 ? "radii and angles" : "disc radius", " n=", n, " alpha=", alpha, " R=", R, " T=", T, " degree=", deg, " seed=", seed, " threads=", threads, par ? " parallel" : ""));
    same<Hrg>(c, hrgConfigs(), hrg, threads, "values", [&](const Hrg& api) {
        if (what == 0) return ofVec(api.radii(n, alpha, R, seed, par));
        if (what == 1) return ofVec(api.angles(n, seed, par));
        if (what == 2) { auto x = api.both(n, alpha, R, seed, par); auto a = ofVec(x.first), b = ofVec(x.second); a.insert(a.end(), b.begin(), b.end()); return a; }
        Result r; putDouble(r, api.radius(n, alpha, T, deg)); putDouble(r, T > 0 ? api.radiusNkr(n, alpha, T, deg) : 0); r.push_back(0); return r;
    });
}

} // namespace

