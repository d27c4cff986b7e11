// PLUGIN girg dbg rel
#include "iid.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

double genPle(Source& s) { return s.weighted({3, 2, 1, 1}) == 0 ? s.pick({2.5, 2.1, 2.9, 3.0, 2.0}) : s.weighted({2, 1, 1}) == 0 ? s.real(1.2, 4) : s.weighted({1, 1}) ? s.real(4, 20) : s.real(1.001, 1.2); }

/// value of the distribution function; 1 - F is accurate in the tail
double cdf(double w, int n, double ple) { return std::expm1((1 - ple) * std::log(w)) / std::expm1((1 - ple) * std::log(0.5 * n)); }
/// change of the distribution function by rounding of the weight itself
double blur(double w, int n, double ple) { return std::fabs((ple - 1) * std::pow(w, 1 - ple) / std::expm1((1 - ple) * std::log(0.5 * n))) * 2.3e-16; }

void range(const Vec& w, int n, Case& c) {
    if (w.size() != size_t(n)) c.fail(cat(w.size(), " weights instead of ", n));
    for (int i = 0; i < n; ++i) if (!(w[size_t(i)] >= 1 && w[size_t(i)] < 0.5 * n)) c.fail(cat("weight ", i, " of ", n, " is ", w[size_t(i)], ", not in [1,", 0.5 * n, ")"));
}
/// equal weights beyond what the precision of doubles explains
void shared(const Vec& w, int n, double ple, Case& c) {
    auto v = w; std::sort(v.begin(), v.end()); double expect = 0; uint64_t d = 0;
    for (size_t i = 1; i < v.size(); ++i) { d += v[i] == v[i - 1]; expect += (blur(v[i], n, ple) + 3.4e-16) * double(n); }
    c.require(logTailUpper(double(d), 1e18, expect + 1e-12) > std::log(1e-12) || d <= 1, cat(d, " pairs of equal weights, expected ", expect));
}

int bulkSize(Source& s, Case& c) { return int(s.weighted({3, 2}) == 0 ? s.pick({20000, 29999, 30000, 30001, 40000, 50003, 80000, 100000, 160000}) : s.logRange(2000, c.thorough ? 1000000 : 100000)); }

/// small vectors: range and duplicates
void small(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    const int n = int(s.logRange(3, 3000)), seed = s.chance(1, 8) ? -1 : genSeed(s), threads = genThreads(s, 16); const double ple = genPle(s); const bool par = s.chance(1, 2);
    c.describe(cat("n=", n, " ple=", ple, " seed=", seed, " threads=", threads, par ? " parallel" : "", " build=", CONFIG[cfg]));
    c.label(par ? "parallel" : "sequential"); c.label(ple < 2 ? "ple<2" : ple > 4 ? "ple>4" : "ple 2-4"); c.nontrivial(n > 10);
    api.setThreads(threads);
    auto w = api.weights(n, ple, seed, par); range(w, n, c); shared(w, n, ple, c); c.count("weights", n);
}

/// one call: distribution, serial correlation, chunks of parallel calls against each other
void bulk(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    const int n = bulkSize(s, c), threads = genThreads(s, 16); const double ple = genPle(s); const bool par = s.chance(3, 4);
    Rng r = s.bulk(); const int first = genSeed(s);
    const bool negative = s.chance(1, 8);
    c.describe(cat("n=", n, " ple=", ple, negative ? " negative seed" : cat(" seed=", first), " threads=", threads, par ? " parallel" : "", " build=", CONFIG[cfg]));
    c.label(par ? threads > 1 && n >= 20000 ? "really parallel" : "parallel" : "sequential"); c.nontrivial(); if (negative) c.label("negative seed");
    api.setThreads(threads);
    twoStage(c, [&](int stage) {
        Findings f;
        const int seed = negative ? -1 : stage == 0 ? first : int(r.next() >> 34);
        auto w = api.weights(n, ple, seed, par);
        range(w, n, c); shared(w, n, ple, c); c.count("weights", n);
        std::vector<double> u; for (auto x : w) u.push_back(cdf(x, n, ple));
        testUniform(f, u, "weights");
        for (auto l : lagsFor(u.size())) testPair(f, u.data(), u.data() + l, u.size() - l, cat("weights i and i+", l));
        return f;
    });
}

/// many calls: the value at every index over seeds, values of different calls against each other
void seeds(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = girg(CONFIG[cfg]);
    const int n = int(s.range(3, 40)), N = c.thorough ? 20000 : 4000; const double ple = genPle(s); const bool par = s.chance(1, 2); const int threads = genThreads(s, 16);
    const int mode = int(s.weighted({2, 2, 1})), step = mode == 0 ? 0 : mode == 1 ? int(s.range(1, 40)) : -1; Rng r = s.bulk();
    c.describe(cat(N, " calls, n=", n, " ple=", ple, mode == 0 ? " random seeds" : mode == 1 ? cat(" seeds in steps of ", step) : std::string(" negative seeds"), " threads=", threads, par ? " parallel" : "", " build=", CONFIG[cfg]));
    c.label(mode == 0 ? "random seeds" : mode == 1 ? "seeds in steps" : "negative seeds"); c.nontrivial();
    api.setThreads(threads);
    twoStage(c, [&](int) {
        Findings f; std::vector<std::vector<double>> col(static_cast<size_t>(n)); std::vector<double> all;
        const int start = int(r.next() >> 34);
        for (int k = 0; k < N; ++k) {
            auto w = api.weights(n, ple, mode == 0 ? int(r.next() >> 33) : mode == 1 ? start + k * step : -1 - k, par);
            range(w, n, c);
            for (int i = 0; i < n; ++i) { col[size_t(i)].push_back(cdf(w[size_t(i)], n, ple)); all.push_back(w[size_t(i)]); }
        }
        // a stream of one seed may be contained in that of another one only as far as threads go; single calls here
        for (int i = 0; i < n; ++i) testUniform(f, col[size_t(i)], cat("weight ", i, " over seeds"));
        for (int i = 0; i < std::min(n, 6); ++i) {
            for (int l = 1; l < 4; ++l) testPair(f, col[size_t(i)].data(), col[size_t(i)].data() + l, col[size_t(i)].size() - size_t(l), cat("weight ", i, " of one call and ", l, " calls later"));
            for (int j = i + 1; j < n; ++j) testPair(f, col[size_t(i)].data(), col[size_t(j)].data(), col[size_t(i)].size(), cat("weights ", i, " and ", j, " over seeds"));
        }
        c.count("weights", double(N) * n);
        return f;
    });
}

} // namespace

pbt::Property pbt::define() {
    return {"G06",
        "small: n in 3..3000, any exponent, seed, thread count and mode: number, range [1,n/2), no equal values beyond rounding. bulk: up to 160000 (thorough: 10^6) weights of one call, mapped by the distribution function: uniform (Dvoretzky-Kiefer-Wolfowitz bound and tail counts), uncorrelated at small lags and at all lags at which chunks of 2..16 threads line up. seeds: the value at every index over thousands of seeds (random, in steps, negative), against each other and against neighbouring calls. A statistic is reported if p<1e-6/#tests and then p<1e-10 on fresh data. Non-trivial: n > 10, always for the statistical cases.",
        {"n >= 3, below that the interval [1,n/2) is empty", "independence is tested for pairs of draws, in second moments"},
        {{"small", 60000, 1000000, small}, {"bulk", 2500, 20000, bulk}, {"seeds", 1200, 8000, seeds}}, [] { girg("dbg"); girg("rel"); }};
}
