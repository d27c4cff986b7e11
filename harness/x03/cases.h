// Parallel calls executed several times under different schedules.
#pragma once
#include "history.h"
#include "runtime.h"

namespace x03 {
using namespace vp;

/// runs the call under k schedules and compares
inline void schedules(Source& s, Case& c, const std::function<Result()>& call, const std::function<void(const Result&, const Result&)>& compare = nullptr) {
    const int k = int(s.range(2, 3)); const auto before = regions();
    Result first;
    for (int i = 0; i < k; ++i) {
        configure(s.raw(1u << 30), i == 0 && s.chance(1, 2) ? 0 : 1u << s.range(1, 6), 0);
        auto r = call();
        if (i == 0) first = std::move(r);
        else if (compare) compare(first, r);
        else if (r != first) c.fail(cat("the result depends on the schedule: ", firstDifference(first, r)));
    }
    c.nontrivial(regions() > before); c.count("parallel regions", double(regions() - before));
}
inline int several(Source& s) { return int(s.pick({2, 3, 4, 8, 5, 6, 7})); }

inline void girgEdges(Source& s, Case& c) {
    GirgOpts o; o.maxN = 400; o.smallShare = 30; auto g = genGirg(s, o); g.threads = several(s);
    const double alpha = s.chance(1, 3) ? INF : genAlpha(s); const int seed = genSeed(s); const bool tree = s.chance(2, 3), profile = tree && s.chance(1, 4);
    c.describe(cat(g.text(), " alpha=", alpha, " seed=", seed, tree ? " generator object" : " edge list")); c.label(tree ? "generator object" : "edge list"); c.label(cat("d=", g.d));
    const auto& api = girg(""); api.setThreads(g.threads);
    schedules(s, c, [&] {
        if (!tree) return ofEdges(api.edges(g.w, g.p, alpha, seed), false);
        Collector col(2, api.maxThreads());
        api.tree(g.w, g.p, alpha, profile, {seed, seed}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
        if (sortedCopy(col.run(0)) != sortedCopy(col.run(1))) c.fail("two generations with the same object, seed and thread count differ");
        return ofEdges(col.run(0), false);
    });
}
inline void hrgEdges(Source& s, Case& c) {
    HrgOpts o; o.maxN = 400; o.smallShare = 30; auto h = genHrg(s, o); h.threads = several(s);
    const double T = s.chance(1, 3) ? 0 : genT(s); const int seed = genSeed(s); const bool tree = s.chance(2, 3), profile = tree && s.chance(1, 4);
    c.describe(cat(h.text(), " T=", T, " seed=", seed, tree ? " generator object" : " edge list")); c.label(tree ? "generator object" : "edge list");
    const auto& api = hrg(""); api.setThreads(h.threads);
    schedules(s, c, [&] {
        if (!tree) return ofEdges(api.edges(h.r, h.phi, T, h.R, seed), false);
        Collector col(2, api.maxThreads());
        api.tree(h.r, h.phi, T, h.R, profile, {seed, seed}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
        if (sortedCopy(col.run(0)) != sortedCopy(col.run(1))) c.fail("two generations with the same object, seed and thread count differ");
        return ofEdges(col.run(0), false);
    });
}
/// more edges than one thread keeps before it hands them over, found by several threads at the same time
inline void many(Source& s, Case& c, int threads, const std::function<Edges(int)>& call, const std::string& text) {
    c.describe(cat(text, " threads=", threads));
    configure(s.raw(1u << 30), 1u << s.range(1, 6), 0);
    const auto before = regions(); const auto e = ofEdges(call(threads), false);
    for (size_t i = 2; i < e.size(); ++i) if (e[i] == e[i - 1]) c.fail("an edge appears twice");
    const auto par = regions() - before; const auto want = ofEdges(call(1), false);
    if (e != want) c.fail(cat("other edges than with one thread: ", firstDifference(want, e)));
    c.count("edges", double(e.size())); c.nontrivial(par > 0 && e.size() > (size_t(threads) << 20));
}
inline void girgMany(Source& s, Case& c) {
    // deep enough for the parallel part of the recursion
    const int threads = s.chance(3, 4) ? 2 : 4, n = threads == 2 ? int(s.range(13500, 14500)) : int(s.range(26000, 29000)), seed = genSeed(s); Rng r = s.bulk();
    Vec w(size_t(n), 1.0); Pos p(size_t(n), std::vector<double>(1)); for (auto& x : p) x[0] = r.unit();
    for (int i = 0; i < n; ++i) w[size_t(i)] = 190.0 + 10 * r.unit();
    many(s, c, threads, [&](int t) { girg("").setThreads(t); return girg("").edges(w, p, INF, seed); }, cat("dense GIRG on ", n, " vertices, seed=", seed));
}
inline void hrgMany(Source& s, Case& c) {
    const int threads = s.chance(3, 4) ? 2 : 4, n = threads == 2 ? int(s.range(18000, 20000)) : int(s.range(24000, 27000)), seed = genSeed(s); Rng r = s.bulk(); const double R = 10.5;
    Vec rad, phi; for (int i = 0; i < n; ++i) { rad.push_back(std::min(R * 0.999999, std::max(0.1, std::acosh(1 + r.unit() * (std::cosh(0.85 * R) - 1)) / 0.85))); phi.push_back(6.28 * r.unit()); }
    many(s, c, threads, [&](int t) { hrg("").setThreads(t); auto a = rad, b = phi; return hrg("").edges(a, b, 0, R, seed); }, cat("dense HRG on ", n, " vertices, seed=", seed));
}
inline void values(Source& s, Case& c) {
    const int threads = several(s), seed = genSeed(s), what = int(s.raw(6)); const int n = int(s.pick({20001, 30000, 45000, 90001, 12000, 20000})), d = int(s.range(1, 3));
    static const char* names[] = {"weights", "positions", "radii", "angles", "radii and angles", "scaling"};
    c.describe(cat(names[what], " n=", n, " d=", d, " threads=", threads, " seed=", seed)); c.label(names[what]);
    const auto& g = girg(""); const auto& h = hrg(""); g.setThreads(threads);
    if (what == 5) {
        const int m = int(s.logRange(2, 12000)); const double alpha = s.pick({INF, 2.0, 0.5, 9.0}), deg = std::min(double(m - 1) / 2, 20.0); const auto w = g.weights(m, 2.5, seed, false);
        schedules(s, c, [&] { auto v = w; double f = 0; g.scale(v, deg, d, alpha, &f); v.push_back(f); return ofVec(v); }, [&](const Result& a, const Result& b) {
            for (size_t i = 1; i < a.size(); ++i) { double x, y; std::memcpy(&x, &a[i], 8); std::memcpy(&y, &b[i], 8); if (!(std::fabs(x - y) <= 1e-9 * std::fabs(x))) c.fail(cat("the scaled weights depend on the schedule: ", x, " and ", y)); }
        });
        return;
    }
    schedules(s, c, [&] {
        switch (what) {
            case 0: return ofVec(g.weights(n, 2.5, seed, true));
            case 1: return ofPos(g.positions(n, d, seed, true));
            case 2: return ofVec(h.radii(n, 0.75, 20, seed, true));
            case 3: return ofVec(h.angles(n, seed, true));
            default: { auto x = h.both(n, 0.75, 20, seed, true); auto a = ofVec(x.first), b = ofVec(x.second); a.insert(a.end(), b.begin(), b.end()); return a; }
        }
    });
}
/// several threads of the caller share the inputs
inline void callers(Source& s, Case& c) {
    const int k = int(s.range(2, 4)); const bool girgs = s.chance(1, 2); const int seed = genSeed(s);
    GirgOpts go; go.maxN = 150; go.sequentialOnly = false; HrgOpts ho; ho.maxN = 150; GirgInst g; HrgInst h; double par = 0;
    if (girgs) { g = genGirg(s, go); par = s.chance(1, 3) ? INF : genAlpha(s); c.describe(cat(k, " threads call at the same time: ", g.text(), " alpha=", par, " seed=", seed)); }
    else { h = genHrg(s, ho); par = s.chance(1, 3) ? 0 : genT(s); c.describe(cat(k, " threads call at the same time: ", h.text(), " T=", par, " seed=", seed)); }
    c.label(girgs ? "GIRGs" : "HRGs");
    std::vector<int> kind, threads; for (int i = 0; i < k; ++i) { kind.push_back(int(s.raw(3))); threads.push_back(s.chance(1, 2) ? 1 : int(s.range(2, 4))); }
    configure(s.raw(1u << 30), 1u << s.range(1, 6), 0);
    std::vector<Result> res(static_cast<size_t>(k)); std::vector<std::thread> th;
    for (size_t i = 0; i < size_t(k); ++i) th.emplace_back([&, i] {
        if (girgs) {
            const auto& api = girg(""); api.setThreads(threads[i]);
            if (kind[i] == 2) { res[i] = ofVec(api.weights(1000 + int(i), 2.5, seed, true)); auto w = g.w; double f; api.scale(w, 0.4 * g.n, g.d, 2, &f); return; }
            Collector col(1, api.maxThreads());
            if (kind[i] == 0) res[i] = ofEdges(api.edges(g.w, g.p, par, seed), false); else api.tree(g.w, g.p, par, true, {seed}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
        } else {
            const auto& api = hrg(""); api.setThreads(threads[i]);
            if (kind[i] == 2) { api.radius(1000, 0.75, par, 10); if (par > 0) api.radiusNkr(1000, 0.75, par, 10); res[i] = ofVec(api.radii(1000, 0.75, 20, seed, true)); return; }
            Collector col(1, api.maxThreads()); auto r = h.r, a = h.phi;
            if (kind[i] == 0) res[i] = ofEdges(api.edges(r, a, par, h.R, seed), false); else api.tree(h.r, h.phi, par, h.R, true, {seed}, [&](size_t q, int u, int v, int t) { col(q, u, v, t); });
        }
    });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < size_t(k); ++i) for (size_t j = 0; j < i; ++j) if (kind[i] == 0 && kind[j] == 0 && threads[i] == threads[j] && res[i] != res[j]) c.fail("two callers with the same arguments get different graphs");
    c.nontrivial();
}

inline void addCases(std::vector<pbt::Sub>& s, const std::string& suffix, double f) {
    auto k = [&](double x) { return std::max(1, int(x * f)); };
    auto put = [&](const char* n, int q, int t, pbt::PropFn fn, int cores) { pbt::Sub x{n + suffix, k(q), k(t), fn, cores}; x.hang_is_violation = false; s.push_back(x); };
    put("girg-edges", 1200, 40000, girgEdges, 2); put("hrg-edges", 1200, 40000, hrgEdges, 2); put("values", 400, 6000, values, 2); put("callers", 2000, 30000, callers, 2);
    put("girg-many", 4, 100, girgMany, 4); put("hrg-many", 4, 100, hrgMany, 4);
}
inline void addWrapped(std::vector<pbt::Sub>& s, pbt::Property p, const std::string& sub, int quick, int thorough) {
    x02::add(s, p, sub, quick, thorough);
    auto fn = s.back().fn; s.back().cores = 2;
    s.back().fn = [fn](Source& src, Case& c) { configure(src.raw(1u << 30), src.chance(1, 3) ? 0 : 1u << src.range(1, 6), 0); fn(src, c); };
}
} // namespace x03
