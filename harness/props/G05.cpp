// PLUGIN girg dbg rel
#include "history.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

Edges callback(const Girg& api, const GirgInst& g, double alpha, bool profile, const std::vector<int>& seeds, size_t which, Disturb d) {
    Collector col(seeds.size(), api.maxThreads());
    api.tree(g.w, g.p, alpha, profile, seeds, [&](size_t r, int u, int v, int t) { d.edge(); col(r, u, v, t); });
    return col.run(which);
}
int bulkSize(Source& s) { return int(s.weighted({2, 3}) ? s.pick({20000, 25000, 29999, 30000, 40000, 60000, 10000, 19999}) : s.range(3, 12000)); }

Op genOp(Source& s, const Girg& api, Case& c) {
    Op o;
    switch (s.weighted({15, 15, 35, 35})) {
        case 0: { const int n = bulkSize(s), seed = genSeed(s); const double ple = s.pick({2.5, 2.1, 3.0, 1.5}); const bool par = s.chance(2, 3); o.threads = genThreads(s, 8);
            o.text = cat("weights(n=", n, ",ple=", ple, ",seed=", seed, par ? ",parallel" : "", ",threads=", o.threads, ")");
            o.run = [=, &api](Disturb) { return ofVec(api.weights(n, ple, seed, par)); }; c.label("weights"); break; }
        case 1: { const int n = bulkSize(s), d = int(s.range(1, 5)), seed = genSeed(s); const bool par = s.chance(2, 3); o.threads = genThreads(s, 8);
            o.text = cat("positions(n=", n, ",d=", d, ",seed=", seed, par ? ",parallel" : "", ",threads=", o.threads, ")");
            o.run = [=, &api](Disturb) { return ofPos(api.positions(n, d, seed, par)); }; c.label("positions"); break; }
        default: {
            GirgOpts go; go.maxSmall = 12; go.maxN = s.chance(1, 8) ? 20000 : 500; go.smallShare = 35; go.maxThreads = 8; if (go.maxN > 500) { go.smallShare = 0; go.minN = 3000; }
            auto g = std::make_shared<GirgInst>(genGirg(s, go));
            double alpha = s.chance(1, 5) ? INF : genAlpha(s);
            if (g->n > 700) { // dense ones are cut down
                alpha = std::max(alpha, 1.5);
                Rng r = s.bulk(); double hit = 0; for (int i = 0; i < 3000; ++i) { const int u = int(r.below(uint64_t(g->n))), v = int(r.below(uint64_t(g->n))); if (u != v) hit += alpha == INF ? girgThreshold(*g, u, v) != 0 : girgProb(*g, u, v, alpha); }
                if (hit / 3000 * g->n * double(g->n) / 2 > 2e5) { g->n = 600; g->w.resize(600); g->p.resize(600); g->W = 0; for (auto x : g->w) g->W += x; }
            }
            const int seed = genSeed(s), kind = int(s.raw(3)); const bool profile = kind == 2 || s.chance(1, 4);
            o.threads = g->threads;
            o.text = cat(kind == 0 ? "generateEdges(" : "tree(", g->text(), " alpha=", alpha, " seed=", seed, kind && profile ? " profile" : "", ")");
            o.run = [=, &api](Disturb d) {
                Edges e;
                if (kind == 0) {
                    auto w = g->w; auto p = g->p; e = api.edges(w, p, alpha, seed);
                    if (ofVec(w) != ofVec(g->w) || ofPos(p) != ofPos(g->p)) return Result{0xBAD};
                } else e = callback(api, *g, alpha, profile, {seed}, 0, d);
                return ofEdges(std::move(e), o.threads == 1);
            };
            c.label(kind ? "tree" : "edges"); c.label(o.threads > 1 ? "parallel" : "sequential"); break; }
    }
    return o;
}

void history(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    const int k = int(s.range(1, 5)); std::vector<Op> ops; std::string text;
    for (int i = 0; i < k; ++i) { ops.push_back(genOp(s, api, c)); text += (i ? "; " : "") + ops.back().text; }
    // copies of one operation make it more likely that the same code runs concurrently
    c.describe(cat(text, " build=", CONFIG[cfg]));
    checkHistory(s, c, ops, api.setThreads, api.insideParallel);
    for (auto& o : ops) { if (o.expected.size() == 1 && o.expected[0] == 0xBAD) c.fail(o.text + " modified its input"); c.nontrivial(o.expected.size() > 1); c.count("operations", 1); }
}

/// one generator object, many runs; profiling; threshold graphs do not depend on seed and threads
void reuse(Source& s, Case& c) {
    GirgOpts go; go.maxSmall = 16; go.maxN = 700; go.smallShare = 40; go.maxThreads = 8;
    auto g = genGirg(s, go);
    const bool threshold = s.chance(1, 3); const double alpha = threshold ? INF : genAlpha(s);
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    std::vector<int> seeds; const int k = int(s.range(2, 5));
    for (int i = 0; i < k; ++i) seeds.push_back(i && s.chance(1, 3) ? seeds[s.raw(seeds.size())] : s.chance(1, 6) ? -int(s.range(1, 1000)) : genSeed(s));
    const bool profile = s.chance(1, 3);
    c.describe(cat(g.text(), " alpha=", alpha, " runs=", k, profile ? " profile" : "", " build=", CONFIG[cfg]));
    c.label(threshold ? "threshold" : "finite alpha"); c.label(g.threads > 1 ? "parallel" : "sequential"); c.label(cat("d=", g.d));
    api.setThreads(g.threads);
    Collector col(seeds.size(), api.maxThreads());
    api.tree(g.w, g.p, alpha, profile, seeds, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
    const bool ordered = g.threads == 1;
    for (size_t i = 0; i < seeds.size(); ++i) {
        auto mine = ofEdges(col.run(i), ordered);
        c.nontrivial(mine.size() > 1);
        if (seeds[i] >= 0) {
            auto fresh = ofEdges(callback(api, g, alpha, false, {seeds[i]}, 0, Disturb{}), ordered);
            if (fresh != mine) c.fail(cat("run ", i, " of one generator object (seed ", seeds[i], ") differs from a fresh generator: ", firstDifference(fresh, mine)));
        }
        if (threshold) {
            auto first = ofEdges(col.run(0), false), other = ofEdges(col.run(i), false);
            if (first != other) c.fail(cat("threshold graphs of seeds ", seeds[0], " and ", seeds[i], " differ: ", firstDifference(first, other)));
        }
    }
    if (threshold) {
        const int t2 = int(s.range(1, 12)); api.setThreads(t2);
        auto first = ofEdges(col.run(0), false), other = ofEdges(api.edges(g.w, g.p, alpha, genSeed(s)), false);
        if (first != other) c.fail(cat("threshold graphs with ", g.threads, " and ", t2, " threads differ: ", firstDifference(first, other)));
    }
}

void seeds(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    const int threads = genThreads(s, 8); api.setThreads(threads);
    const int a = s.chance(1, 3) ? -1 : genSeed(s);
    int b = a < 0 ? (s.chance(1, 2) ? -1 : -int(s.range(1, 100))) : s.chance(1, 2) ? (a > 2147483000 ? a - int(s.range(1, 16)) : a + int(s.range(1, 16))) : genSeed(s);
    if (a >= 0 && a == b) b = a + 1;
    const int what = int(s.weighted({2, 2, 3, 2})); const bool par = s.chance(2, 3);
    const int n = bulkSize(s), d = int(s.range(1, 5));
    c.describe(cat(what == 0 ? "weights" : what == 1 ? "positions" : what == 2 ? "edges" : "generator object", " n=", n, " d=", d, " seeds ", a, " and ", b, " threads=", threads, par ? " parallel" : "", " build=", CONFIG[cfg]));
    c.label(a < 0 ? "negative seed" : "different seeds"); c.label(what == 0 ? "weights" : what == 1 ? "positions" : "edges"); c.nontrivial();
    const std::string msg = a < 0 ? " with a negative seed are equal" : " of different seeds are equal";
    // equality anywhere means shared draws: compare position by position, a shift would be another seed's stream
    auto same = [&](const Result& x, const Result& y, size_t from) { size_t k = 0; for (size_t i = from; i < x.size() && i < y.size(); ++i) k += x[i] == y[i]; return k; };
    if (what == 0) {
        auto x = ofVec(api.weights(n, 2.5, a, par)), y = ofVec(api.weights(n, 2.5, b, par));
        const auto k = same(x, y, 1); if (k > 1) c.fail(cat(k, " of ", n, " weights", msg));
    } else if (what == 1) {
        auto P = api.positions(n, d, a, par), Q = api.positions(n, d, b, par); size_t k = 0;
        for (size_t i = 0; i < P.size(); ++i) for (size_t j = 0; j < P[i].size(); ++j) k += P[i][j] == Q[i][j];
        if (k > 1) c.fail(cat(k, " of ", n * d, " coordinates", msg));
    } else {
        // 60 points at mutual distances that leave their connection open
        GirgInst g; g.n = 64; g.d = std::min(d, 3); for (int i = 0; i < g.n; ++i) { g.p.emplace_back(); for (int j = 0; j < g.d; ++j) g.p.back().push_back(j ? s.unit() : (i + 0.5) / g.n); }
        const double L = s.real(1.0, 8.0); g.w.assign(size_t(g.n), g.n / std::exp2(L)); g.W = g.w[0] * g.n;
        const double alpha = s.real(1.1, 3); double logsame = 0;
        for (int u = 0; u < g.n; ++u) for (int v = u + 1; v < g.n; ++v) { const double p = girgProb(g, u, v, alpha); logsame += std::log2(p * p + (1 - p) * (1 - p)); }
        if (logsame > -60) c.skip();
        Edges e, f;
        if (what == 2) { e = api.edges(g.w, g.p, alpha, a); f = api.edges(g.w, g.p, alpha, b); }
        else { Collector col(2, api.maxThreads()); api.tree(g.w, g.p, alpha, false, {a, b}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); }); e = col.run(0); f = col.run(1); }
        if (ofEdges(e, false) == ofEdges(f, false)) c.fail(cat("graphs", msg, " (", e.size(), " edges)"));
    }
}

} // namespace

pbt::Property pbt::define() {
    return {"G05",
        "history: 1-5 operations (weights, positions, edge lists, generator objects; threads 1-8) are executed once, then repeated in other orders, concurrently in 2-5 threads, with sleeping callbacks and inside a parallel region; every execution must give the first one's result (edges in order with one thread, as a set otherwise) and leave the input as it was. reuse: several runs of one generator object against fresh ones, with profiling; threshold graphs for other seeds and thread counts. seeds: results of different or negative seeds must differ. Non-trivial: the results are not empty.",
        {"thread counts are those the runtime really provides; inside a parallel region only sequential generation is compared"},
        {{"history", 700, 14000, history, 2}, {"reuse", 2500, 50000, reuse}, {"seeds", 1500, 20000, seeds}}, [] { girg("dbg"); girg("rel"); }};
}
