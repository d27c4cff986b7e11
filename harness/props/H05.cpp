// PLUGIN hrg dbg rel
#include "history.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

Edges callback(const Hrg& api, const HrgInst& h, double T, bool profile, const std::vector<int>& seeds, size_t which, Disturb d) {
    Collector col(seeds.size(), api.maxThreads());
    api.tree(h.r, h.phi, T, h.R, profile, seeds, [&](size_t r, int u, int v, int t) { d.edge(); col(r, u, v, t); });
    return col.run(which);
}
int bulkSize(Source& s) { return int(s.weighted({2, 3}) ? s.pick({20000, 25000, 29999, 30001, 40000, 60000, 10000, 10001, 19999}) : s.range(1, 12000)); }
Result both(const std::pair<Vec, Vec>& x) { auto r = ofVec(x.first), q = ofVec(x.second); r.insert(r.end(), q.begin(), q.end()); return r; }

Op genOp(Source& s, const Hrg& api, Case& c) {
    Op o;
    switch (s.weighted({12, 12, 10, 33, 33})) {
        case 0: case 1: case 2: {
            const int n = bulkSize(s), seed = genSeed(s), kind = int(s.raw(3)); const double a = s.pick({0.75, 0.55, 1.0, 3.0}), R = s.real(1, 30); const bool par = s.chance(2, 3); o.threads = genThreads(s, 8);
            o.text = cat(kind == 0 ? "radii" : kind == 1 ? "angles" : "radii and angles", "(n=", n, ",alpha=", a, ",R=", R, ",seed=", seed, par ? ",parallel" : "", ",threads=", o.threads, ")");
            o.run = [=, &api](Disturb) { return kind == 0 ? ofVec(api.radii(n, a, R, seed, par)) : kind == 1 ? ofVec(api.angles(n, seed, par)) : both(api.both(n, a, R, seed, par)); };
            c.label(kind == 0 ? "radii" : kind == 1 ? "angles" : "both"); break; }
        default: {
            HrgOpts ho; ho.maxSmall = 12; ho.maxN = s.chance(1, 8) ? 20000 : 500; ho.smallShare = 35; ho.maxThreads = 8; if (ho.maxN > 500) { ho.smallShare = 0; ho.minN = 3000; }
            auto h = std::make_shared<HrgInst>(genHrg(s, ho));
            double T = s.chance(1, 5) ? 0 : genT(s);
            if (h->n > 700) { // dense ones are cut down
                T = std::min(T, 0.6);
                Rng r = s.bulk(); double hit = 0; for (int i = 0; i < 3000; ++i) { const int u = int(r.below(uint64_t(h->n))), v = int(r.below(uint64_t(h->n))); if (u != v) hit += T == 0 ? hrgThreshold(*h, u, v) != 0 : hrgProb(*h, u, v, T).second; }
                if (hit / 3000 * h->n * double(h->n) / 2 > 2e5) { h->n = 600; h->r.resize(600); h->phi.resize(600); }
            }
            const int seed = genSeed(s), kind = int(s.raw(3)); const bool profile = kind == 2 || s.chance(1, 4);
            o.threads = h->threads;
            o.text = cat(kind == 0 ? "generateEdges(" : "tree(", h->text(), " T=", T, " seed=", seed, kind && profile ? " profile" : "", ")");
            o.run = [=, &api](Disturb d) {
                Edges e;
                if (kind == 0) {
                    auto r = h->r, p = h->phi; e = api.edges(r, p, T, h->R, seed);
                    if (ofVec(r) != ofVec(h->r) || ofVec(p) != ofVec(h->phi)) return Result{0xBAD};
                } else e = callback(api, *h, T, profile, {seed}, 0, d);
                return ofEdges(std::move(e), o.threads == 1);
            };
            c.label(kind ? "tree" : "edges"); c.label(o.threads > 1 ? "parallel" : "sequential"); break; }
    }
    return o;
}

void history(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    const int k = int(s.range(1, 5)); std::vector<Op> ops; std::string text;
    for (int i = 0; i < k; ++i) { ops.push_back(genOp(s, api, c)); text += (i ? "; " : "") + ops.back().text; }
    c.describe(cat(text, " build=", CONFIG[cfg]));
    checkHistory(s, c, ops, api.setThreads, api.insideParallel);
    for (auto& o : ops) { if (o.expected.size() == 1 && o.expected[0] == 0xBAD) c.fail(o.text + " modified its input"); c.nontrivial(o.expected.size() > 1); c.count("operations", 1); }
}

/// one generator object, many runs; profiling; threshold graphs do not depend on seed and threads
void reuse(Source& s, Case& c) {
    HrgOpts ho; ho.maxSmall = 16; ho.maxN = 700; ho.smallShare = 40; ho.maxThreads = 8;
    auto h = genHrg(s, ho);
    const bool threshold = s.chance(1, 3); const double T = threshold ? 0 : genT(s);
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    std::vector<int> seeds; const int k = int(s.range(2, 5));
    for (int i = 0; i < k; ++i) seeds.push_back(i && s.chance(1, 3) ? seeds[s.raw(seeds.size())] : s.chance(1, 6) ? -int(s.range(1, 1000)) : genSeed(s));
    const bool profile = s.chance(1, 3);
    c.describe(cat(h.text(), " T=", T, " runs=", k, profile ? " profile" : "", " build=", CONFIG[cfg]));
    c.label(threshold ? "threshold" : "T>0"); c.label(h.threads > 1 ? "parallel" : "sequential");
    api.setThreads(h.threads);
    Collector col(seeds.size(), api.maxThreads());
    api.tree(h.r, h.phi, T, h.R, profile, seeds, [&](size_t r, int u, int v, int t) { col(r, u, v, t); });
    const bool ordered = h.threads == 1;
    for (size_t i = 0; i < seeds.size(); ++i) {
        auto mine = ofEdges(col.run(i), ordered);
        c.nontrivial(mine.size() > 1);
        if (seeds[i] >= 0) {
            auto fresh = ofEdges(callback(api, h, T, false, {seeds[i]}, 0, Disturb{}), ordered);
            if (fresh != mine) c.fail(cat("run ", i, " of one generator object (seed ", seeds[i], ") differs from a fresh generator: ", firstDifference(fresh, mine)));
        }
        if (threshold) {
            auto first = ofEdges(col.run(0), false), other = ofEdges(col.run(i), false);
            if (first != other) c.fail(cat("threshold graphs of seeds ", seeds[0], " and ", seeds[i], " differ: ", firstDifference(first, other)));
        }
    }
    if (threshold) {
        const int t2 = int(s.range(1, 12)); api.setThreads(t2);
        auto r = h.r, p = h.phi;
        auto first = ofEdges(col.run(0), false), other = ofEdges(api.edges(r, p, T, h.R, genSeed(s)), false);
        if (first != other) c.fail(cat("threshold graphs with ", h.threads, " and ", t2, " threads differ: ", firstDifference(first, other)));
    }
}

void seeds(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    const int threads = genThreads(s, 8); api.setThreads(threads);
    const int a = s.chance(1, 3) ? -1 : genSeed(s);
    int b = a < 0 ? (s.chance(1, 2) ? -1 : -int(s.range(1, 100))) : s.chance(1, 2) ? (a > 2147483000 ? a - int(s.range(1, 16)) : a + int(s.range(1, 16))) : genSeed(s);
    if (a >= 0 && a == b) b = a + 1;
    const int what = int(s.weighted({2, 2, 2, 3, 2})); const bool par = s.chance(2, 3);
    const int n = bulkSize(s); const double al = s.pick({0.75, 1.0, 0.55}), R = s.real(5, 25);
    c.describe(cat(what == 0 ? "radii" : what == 1 ? "angles" : what == 2 ? "radii and angles" : what == 3 ? "edges" : "generator object", " n=", n, " seeds ", a, " and ", b, " threads=", threads, par ? " parallel" : "", " build=", CONFIG[cfg]));
    c.label(a < 0 ? "negative seed" : "different seeds"); c.label(what == 0 ? "radii" : what == 1 ? "angles" : what == 2 ? "both" : "edges"); c.nontrivial();
    const std::string msg = a < 0 ? " with a negative seed are equal" : " of different seeds are equal";
    auto same = [&](const Vec& x, const Vec& y) { size_t k = 0; for (size_t i = 0; i < x.size() && i < y.size(); ++i) k += x[i] == y[i]; return k; };
    if (what < 3) {
        std::pair<Vec, Vec> x, y;
        if (what == 0) { x.first = api.radii(n, al, R, a, par); y.first = api.radii(n, al, R, b, par); }
        else if (what == 1) { x.second = api.angles(n, a, par); y.second = api.angles(n, b, par); }
        else { x = api.both(n, al, R, a, par); y = api.both(n, al, R, b, par); }
        const auto k1 = same(x.first, y.first), k2 = same(x.second, y.second);
        if (k1 > 1) c.fail(cat(k1, " of ", n, " radii", msg));
        if (k2 > 1) c.fail(cat(k2, " of ", n, " angles", msg));
    } else {
        HrgInst h; h.n = 64; h.R = s.real(4, 10);
        for (int i = 0; i < h.n; ++i) { h.r.push_back(h.R * s.real(0.45, 0.75)); h.phi.push_back(2 * PI * s.unit()); }
        const double T = s.real(0.4, 0.95); double logsame = 0;
        for (int u = 0; u < h.n; ++u) for (int v = u + 1; v < h.n; ++v) { const double p = hrgProb(h, u, v, T).first; logsame += std::log2(p * p + (1 - p) * (1 - p)); }
        if (logsame > -60) c.skip();
        Edges e, f;
        if (what == 3) { e = api.edges(h.r, h.phi, T, h.R, a); f = api.edges(h.r, h.phi, T, h.R, b); }
        else { Collector col(2, api.maxThreads()); api.tree(h.r, h.phi, T, h.R, false, {a, b}, [&](size_t r, int u, int v, int t) { col(r, u, v, t); }); e = col.run(0); f = col.run(1); }
        if (ofEdges(e, false) == ofEdges(f, false)) c.fail(cat("graphs", msg, " (", e.size(), " edges)"));
    }
}

} // namespace

pbt::Property pbt::define() {
    return {"H05",
        "history: 1-5 operations (radii, angles, both, edge lists, generator objects; threads 1-8) are executed once, then repeated in other orders, concurrently in 2-5 threads, with sleeping callbacks and inside a parallel region; every execution must give the first one's result (edges in order with one thread, as a set otherwise) and leave the input as it was. reuse: several runs of one generator object against fresh ones, with profiling; threshold graphs for other seeds and thread counts. seeds: results of different or negative seeds must differ. Non-trivial: the results are not empty.",
        {"thread counts are those the runtime really provides; inside a parallel region only sequential generation is compared"},
        {{"history", 700, 14000, history, 2}, {"reuse", 2500, 50000, reuse}, {"seeds", 1500, 20000, seeds}}, [] { hrg("dbg"); hrg("rel"); }};
}
