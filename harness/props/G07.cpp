// PLUGIN girg dbg rel
#include "iid.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

std::vector<double> flat(const Pos& p, int n, int d, Case& c) {
    if (p.size() != size_t(n)) c.fail(cat(p.size(), " points instead of ", n));
    std::vector<double> r; r.reserve(size_t(n) * size_t(d));
    for (int i = 0; i < n; ++i) {
        if (p[size_t(i)].size() != size_t(d)) c.fail(cat("point ", i, " has ", p[size_t(i)].size(), " coordinates instead of ", d));
        for (int k = 0; k < d; ++k) {
            const double x = p[size_t(i)][size_t(k)];
            if (!(x >= 0 && x < 1)) c.fail(cat("coordinate ", k, " of point ", i, " is ", x));
            r.push_back(x);
        }
    }
    return r;
}
/// 2^-53 resolution: 10^6 values have 5e-5 equal pairs on average, two or more with probability 1e-9; zeros are as rare
void shared(const std::vector<double>& x, Case& c) {
    const auto d = duplicates(x);
    if (d > 2) c.fail(cat(d, " pairs of equal coordinates among ", x.size()));
    if (std::count(x.begin(), x.end(), 0.0) > 1) c.fail("coordinates left at zero");
}
int genDim(Source& s) { return s.chance(1, 8) ? int(s.range(6, 12)) : int(s.range(1, 5)); }

void small(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    const int n = int(s.logRange(1, 3000)), d = genDim(s), seed = s.chance(1, 8) ? -1 : genSeed(s), threads = genThreads(s, 16); const bool par = s.chance(1, 2);
    c.describe(cat("n=", n, " d=", d, " seed=", seed, " threads=", threads, par ? " parallel" : "", " build=", CONFIG[cfg]));
    c.label(par ? "parallel" : "sequential"); c.label(cat("d=", d)); c.nontrivial(n > 10);
    api.setThreads(threads);
    shared(flat(api.positions(n, d, seed, par), n, d, c), c);
}

void bulk(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    const int d = genDim(s), threads = genThreads(s, 16); const bool par = s.chance(3, 4);
    const int n = int(s.weighted({3, 2}) == 0 ? s.pick({20000, 29999, 30000, 30001, 40000, 50003, 80000, 100000}) : s.logRange(2000, c.thorough ? 300000 : 60000));
    const int first = genSeed(s); Rng r = s.bulk(); const bool negative = s.chance(1, 8);
    c.describe(cat("n=", n, " d=", d, negative ? " negative seed" : cat(" seed=", first), " threads=", threads, par ? " parallel" : "", " build=", CONFIG[cfg]));
    c.label(par ? threads > 1 && n >= 20000 ? "really parallel" : "parallel" : "sequential"); c.label(cat("d=", d)); c.nontrivial(); if (negative) c.label("negative seed");
    api.setThreads(threads);
    twoStage(c, [&](int stage) {
        Findings f;
        auto x = flat(api.positions(n, d, negative ? -1 : stage == 0 ? first : int(r.next() >> 34), par), n, d, c); shared(x, c); c.count("coordinates", double(x.size()));
        std::vector<std::vector<double>> col(static_cast<size_t>(d));
        for (size_t i = 0; i < x.size(); ++i) col[i % size_t(d)].push_back(x[i]);
        for (int k = 0; k < d; ++k) {
            auto& a = col[size_t(k)]; testUniform(f, a, cat("coordinate ", k));
            for (int j = k + 1; j < d; ++j) testPair(f, a.data(), col[size_t(j)].data(), a.size(), cat("coordinates ", k, " and ", j));
            for (auto l : lagsFor(a.size())) {
                testPair(f, a.data(), a.data() + l, a.size() - l, cat("coordinate ", k, " of points i and i+", l));
                const int j = (k + 1) % d; // streams shifted by one draw
                if (j != k) testPair(f, a.data(), col[size_t(j)].data() + l, a.size() - l, cat("coordinate ", k, " of point i and ", j, " of point i+", l));
            }
        }
        return f;
    });
}

void seeds(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    const int d = genDim(s), n = int(s.range(1, std::max(1, 30 / d))), N = c.thorough ? 20000 : 4000; const bool par = s.chance(1, 2); const int threads = genThreads(s, 16);
    const int mode = int(s.weighted({2, 2, 1})), step = int(s.range(1, 40)); Rng r = s.bulk();
    c.describe(cat(N, " calls, n=", n, " d=", d, mode == 0 ? " random seeds" : mode == 1 ? cat(" seeds in steps of ", step) : std::string(" negative seeds"), " threads=", threads, par ? " parallel" : "", " build=", CONFIG[cfg]));
    c.label(mode == 0 ? "random seeds" : mode == 1 ? "seeds in steps" : "negative seeds"); c.label(cat("d=", d)); c.nontrivial();
    api.setThreads(threads);
    twoStage(c, [&](int) {
        Findings f; const size_t m = size_t(n) * size_t(d); std::vector<std::vector<double>> col(m);
        const int start = int(r.next() >> 34);
        for (int k = 0; k < N; ++k) {
            auto x = flat(api.positions(n, d, mode == 0 ? int(r.next() >> 33) : mode == 1 ? start + k * step : -1 - k, par), n, d, c);
            for (size_t i = 0; i < m; ++i) col[i].push_back(x[i]);
        }
        for (size_t i = 0; i < m; ++i) testUniform(f, col[i], cat("coordinate ", i % size_t(d), " of point ", i / size_t(d), " over seeds"));
        for (size_t i = 0; i < std::min<size_t>(m, 8); ++i) {
            for (size_t l = 1; l < 4; ++l) testPair(f, col[i].data(), col[i].data() + l, col[i].size() - l, cat("value ", i, " of one call and ", l, " calls later"));
            for (size_t j = i + 1; j < std::min<size_t>(m, 8); ++j) testPair(f, col[i].data(), col[j].data(), col[i].size(), cat("values ", i, " and ", j, " over seeds"));
        }
        c.count("coordinates", double(N) * double(m));
        return f;
    });
}

} // namespace

pbt::Property pbt::define() {
    return {"G07",
        "small: n in 1..3000, dimension 1..12, any seed, thread count and mode: shape, range [0,1), no equal values, none left at zero. bulk: up to 100000 points (thorough 300000) of one call: every coordinate uniform (DKW bound and tail counts), coordinates of a point uncorrelated, points uncorrelated at small lags and at all lags at which chunks of 2..16 threads line up. seeds: every coordinate over thousands of seeds (random, in steps, negative), against each other and neighbouring calls. A statistic is reported if p<1e-6/#tests and then p<1e-10 on fresh data. Non-trivial: n > 10, always for the statistical cases.",
        {"independence is tested for pairs of draws, in second moments"},
        {{"small", 40000, 600000, small}, {"bulk", 900, 8000, bulk}, {"seeds", 1000, 8000, seeds}}, [] { girg("dbg"); girg("rel"); }};
}
