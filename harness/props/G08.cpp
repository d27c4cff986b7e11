// PLUGIN girg rel dbg
#include "gen.h"
using namespace vp;

namespace {

/// expected average degree of the GIRG with weights s*w and uniform positions; probabilities integrated in closed form
long double expectedDegree(const Vec& w, long double s, int d, double alpha) {
    long double W = 0; for (auto x : w) W += x;
    const long double f = ldexpl(s / W, d);
    long double deg = 0;
    const size_t n = w.size();
    for (size_t u = 0; u < n; ++u) {
        long double row = 0;
        for (size_t v = u + 1; v < n; ++v) {
            const long double K = f * w[u] * w[v];
            if (K >= 1) { row += 1; continue; }
            if (std::isinf(alpha)) { row += K; continue; }
            const long double l = logl(K); // K + (K^a - K)/(1-a), written without cancellation
            row += K - K * expm1l((alpha - 1.0L) * l) / (alpha - 1.0L);
        }
        deg += row;
    }
    return 2 * deg / n;
}

struct Weights { Vec w; std::string kind; };
Weights genWeights(Source& s, int n, double maxRatio = 0) {
    Weights r; r.w.resize(size_t(n));
    const int kind = int(s.weighted({10, 30, 15, 15, 15, 15}));
    static const char* names[] = {"equal", "pareto", "two-classes", "hubs", "log-uniform", "few-distinct"};
    r.kind = names[kind];
    const double ple = s.pick({2.5, 2.1, 2.9, 3.5, 2.02, 1.5}), top = std::exp2(s.real(0.1, 19));
    const int hubs = int(s.range(1, 5));
    Rng bulk = s.bulk();
    for (int i = 0; i < n; ++i) {
        double v = 1;
        switch (kind) {
            case 0: break;
            case 1: v = std::min(1e6, std::pow(1 - bulk.unit(), -1 / (ple - 1))); break;
            case 2: v = bulk.below(3) == 2 ? top : 1; break;
            case 3: v = i < hubs ? top * (1 + bulk.unit()) : 1 + bulk.unit(); break;
            case 4: v = std::exp2(bulk.unit() * std::log2(top)); break;
            default: v = std::exp2(double(bulk.below(6))); break;
        }
        r.w[size_t(i)] = v;
    }
    if (maxRatio > 0) { const double m = *std::min_element(r.w.begin(), r.w.end()); for (auto& x : r.w) x = std::min(x, m * maxRatio); }
    const double unit = std::exp2(s.pick({0.0, -10.0, 10.0, -30.5, 20.25}));
    for (auto& x : r.w) x *= unit;
    for (size_t i = r.w.size(); i > 1; --i) std::swap(r.w[i - 1], r.w[bulk.below(i)]);
    return r;
}

double genScaleAlpha(Source& s, double deg, int n) {
    double a = INF;
    switch (s.weighted({4, 6, 2, 2, 2})) {
        case 0: return INF;
        case 1: a = s.pick({2.0, 1.5, 3.0, 1.1, 1.25, 5.0, 8.0, 0.5, 0.75, 0.9}); break;
        case 2: a = s.real(1.0001, 8.0); break;
        case 3: a = s.real(0.1, 0.9999); break;
        default: a = s.pick({std::nextafter(8.0, 9.0), 9.0, 10.0, 12.5, 50.0, 1000.0}); break;
    }
    if (a < 1) a = std::max(a, std::log10(double(n) / std::min(1.0, deg)) / 100); // the factor has to be representable
    return a;
}

double genDegree(Source& s, int n) {
    switch (s.weighted({5, 3, 2, 1, 2})) {
        case 0: return std::min(double(n - 1) * 0.9, s.real(0.5, 20));
        case 1: return s.real(0.01, 0.999) * (n - 1);
        case 2: return (n - 1) - std::min(0.5, (n - 1) * 0.5) * std::exp2(-double(s.range(0, 8)));
        case 3: return n - 1;
        default: return std::exp2(-double(s.range(0, 10))) * 0.9 * (n > 2 ? 1 : 0.9);
    }
}

void formula(Source& s, Case& c) {
    const int n = int(s.logRange(2, c.thorough ? 1500 : 500)), d = int(s.range(1, 5)), threads = genThreads(s, 8);
    auto W = genWeights(s, n);
    const double deg = genDegree(s, n), alpha = genScaleAlpha(s, deg, n);
    const bool dbg = s.chance(1, 3);
    c.describe(cat("n=", n, " d=", d, " weights:", W.kind, n <= 6 ? [&] { std::string t; for (auto x : W.w) t += " " + pbt::str(x); return t; }() : std::string(), " degree=", deg, " alpha=", alpha, " threads=", threads, dbg ? " dbg" : ""));
    c.label(std::isinf(alpha) ? "threshold" : alpha > 8 ? "alpha>8" : alpha > 1 ? "1<alpha<=8" : "alpha<1"); c.label("x:" + W.kind); if (deg > 0.9 * (n - 1)) c.label("nearly complete");
    const auto& api = girg(dbg ? "dbg" : "rel");
    api.setThreads(threads);
    auto w = W.w; double factor = -1;
    const auto err = api.scale(w, deg, d, alpha, &factor);
    if (!err.empty()) c.fail(cat("weight scaling failed: ", err));
    if (!(factor > 0) || std::isinf(factor)) c.fail(cat("the factor is ", factor));
    if (w.size() != W.w.size()) c.fail("the number of weights changed");
    for (size_t i = 0; i < w.size(); ++i) if (!(std::fabs(w[i] - W.w[i] * factor) <= 1e-14 * w[i])) c.fail(cat("weight ", i, " was ", W.w[i], " and is ", w[i], ", the factor is ", factor));
    const double got = double(expectedDegree(W.w, factor, d, alpha));
    c.count("pairs", 0.5 * n * (n - 1));
    const double lo = deg - 0.05, hi = !std::isinf(alpha) && alpha > 8 ? (deg + 0.05) * (1 + 1 / (alpha - 1)) : deg + 0.05;
    if (!(got >= lo && got <= hi)) c.fail(cat("expected average degree after scaling by ", factor, " is ", got, ", desired ", deg));
    c.nontrivial(n >= 3 && deg > 0.1 && got > 0.05);
}

/// degree of graphs that are really sampled
void sampled(Source& s, Case& c) {
    const int n = int(s.range(50, 400)), d = int(s.range(1, 5));
    auto W = genWeights(s, n, 64);
    const double deg = s.real(1.0, 15.0);
    double alpha = s.chance(1, 3) ? INF : s.pick({2.0, 1.5, 3.0, 5.0, 8.0, 0.75});
    const auto& api = girg("rel");
    const int threads = genThreads(s, 4), runs = c.thorough ? 120 : 40, seed = genSeed(s) / 2;
    c.describe(cat("n=", n, " d=", d, " weights:", W.kind, " degree=", deg, " alpha=", alpha, " runs=", runs, " seed=", seed));
    api.setThreads(threads);
    auto w = W.w; double factor = -1;
    const auto err = api.scale(w, deg, d, alpha, &factor);
    if (!err.empty()) c.fail(err);
    { // the number of cells grows with W/w_min^2, the work per cell with 3^d
        const double L = std::log2(std::accumulate(w.begin(), w.end(), 0.0)) - 2 * std::log2(*std::min_element(w.begin(), w.end()));
        const double cap[] = {0, 17, 16, 15, 14.5, 14}; if (L > cap[d]) c.skip();
    }
    double sum = 0, sq = 0;
    for (int r = 0; r < runs; ++r) {
        auto p = api.positions(n, d, seed + r, false);
        const double x = 2.0 * double(api.edges(w, p, alpha, seed + r).size()) / n;
        sum += x; sq += x * x;
    }
    const double mean = sum / runs, sd = std::sqrt(std::max(0.0, sq / runs - mean * mean) / runs);
    c.count("graphs", runs);
    if (std::fabs(mean - deg) > 0.05 + 8 * sd + 0.02 * deg) c.fail(cat("average degree of ", runs, " sampled graphs is ", mean, " (standard error ", sd, "), desired ", deg));
    c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"G08",
        "A case is a weight vector (equal, power law, two classes, hubs, log-uniform, few distinct values; scaled as a whole by 2^-30..2^20), a dimension, a desired degree (typical, a share of n-1, close to n-1, tiny), an alpha (infinite, (0,1), (1,8], above 8) and a thread count. The factor is put into the expected degree, summed over all pairs in closed form in long double. A second sub-check samples graphs with random positions. Non-trivial: n >= 3 and a degree above 0.1.",
        {"largest weight at most 2^20 times the smallest (threshold: cancellation beyond 10^7)", "|alpha-1| >= 1e-4", "alpha not so small that the factor leaves the range of doubles"},
        {{"formula", 150000, 1500000, formula}, {"sampled", 400, 4000, sampled}}, [] { girg("rel"); girg("dbg"); }};
}
