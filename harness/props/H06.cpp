// PLUGIN hrg dbg rel
#include "iid.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

struct Law { double alpha, R; };
Law genLaw(Source& s) {
    const double a = s.weighted({3, 2, 1}) == 0 ? s.pick({0.75, 1.0, 0.55, 0.9}) : s.chance(1, 4) ? s.real(1, 8) : s.real(0.5, 1);
    double R = s.weighted({4, 1, 1}) == 0 ? s.real(1, 30) : s.chance(1, 2) ? s.real(0.05, 1) : s.real(30, 80);
    return {a, std::min(R, 300 / a)};
}
/// distribution function, accurate at both ends: (cosh(x)-1)/(cosh(y)-1) = (sinh(x/2)/sinh(y/2))^2
double cdf(double r, Law l) { const double q = std::exp((r - l.R) * l.alpha / 2) * std::expm1(-r * l.alpha) / std::expm1(-l.R * l.alpha); return q * q; }
double density(double r, Law l) { const double y = l.alpha * l.R; return l.alpha * std::exp(l.alpha * r - y) * (1 - std::exp(-2 * l.alpha * r)) / (1 + std::exp(-2 * y) - 2 * std::exp(-y)); }

void range(const Vec& r, int n, Law l, Case& c) {
    if (r.size() != size_t(n)) c.fail(cat(r.size(), " radii instead of ", n));
    for (int i = 0; i < n; ++i) if (!(r[size_t(i)] >= 0 && r[size_t(i)] < l.R)) c.fail(cat("radius ", i, " is ", r[size_t(i)], ", not in [0,", l.R, ")"));
}
void shared(const Vec& r, Law l, Case& c) {
    auto v = r; std::sort(v.begin(), v.end()); double expect = 0; uint64_t d = 0;
    for (size_t i = 1; i < v.size(); ++i) { d += v[i] == v[i - 1]; expect += (density(v[i], l) * (v[i] + 1 / l.alpha) * 2.3e-16 + 4.5e-16 / (1 - std::exp(-l.alpha * l.R)) / std::min(1.0, l.alpha * l.alpha * l.R * l.R / 2)) * double(r.size()); }
    c.require(d <= 1 || logTailUpper(double(d), 1e18, expect + 1e-12) > std::log(1e-12), cat(d, " pairs of equal radii, expected ", expect));
}
int bulkSize(Source& s, Case& c) { return int(s.weighted({3, 2}) == 0 ? s.pick({10000, 10001, 19999, 20000, 20001, 30000, 50003, 80000, 100000}) : s.logRange(2000, c.thorough ? 1000000 : 100000)); }

Vec sample(const Hrg& api, int n, Law l, int seed, bool par, bool both, Case& c) {
    if (!both) return api.radii(n, l.alpha, l.R, seed, par);
    auto x = api.both(n, l.alpha, l.R, seed, par);
    if (x.second.size() != size_t(n)) c.fail(cat(x.second.size(), " angles instead of ", n));
    return x.first;
}

void small(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    const int n = int(s.logRange(1, 3000)), seed = s.chance(1, 8) ? -1 : genSeed(s), threads = genThreads(s, 16); const auto l = genLaw(s); const bool par = s.chance(1, 2), both = s.chance(1, 2);
    c.describe(cat("n=", n, " alpha=", l.alpha, " R=", l.R, " seed=", seed, " threads=", threads, par ? " parallel" : "", both ? " with angles" : "", " build=", CONFIG[cfg]));
    c.label(par ? "parallel" : "sequential"); c.label(both ? "with angles" : "alone"); c.label(l.R < 1 ? "R<1" : l.R > 30 ? "R>30" : "R 1-30"); c.nontrivial(n > 10);
    api.setThreads(threads);
    auto r = sample(api, n, l, seed, par, both, c); range(r, n, l, c); shared(r, l, c); c.count("radii", n);
}

void bulk(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    const int n = bulkSize(s, c), threads = genThreads(s, 16); const auto l = genLaw(s); const bool par = s.chance(3, 4), both = s.chance(1, 2);
    const int first = genSeed(s); Rng g = s.bulk(); const bool negative = s.chance(1, 8);
    c.describe(cat("n=", n, " alpha=", l.alpha, " R=", l.R, negative ? " negative seed" : cat(" seed=", first), " threads=", threads, par ? " parallel" : "", both ? " with angles" : "", " build=", CONFIG[cfg]));
    c.label(par ? threads > 1 && n > 10000 ? "really parallel" : "parallel" : "sequential"); c.label(both ? "with angles" : "alone"); c.nontrivial(); if (negative) c.label("negative seed");
    api.setThreads(threads);
    twoStage(c, [&](int stage) {
        Findings f;
        auto r = sample(api, n, l, negative ? -1 : stage == 0 ? first : int(g.next() >> 34), par, both, c); range(r, n, l, c); shared(r, l, c); c.count("radii", n);
        std::vector<double> u; for (auto x : r) u.push_back(cdf(x, l));
        testUniform(f, u, "radii");
        for (auto k : lagsFor(u.size())) testPair(f, u.data(), u.data() + k, u.size() - k, cat("radii i and i+", k));
        return f;
    });
}

void seeds(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    const int n = int(s.range(1, 30)), N = c.thorough ? 20000 : 4000, threads = genThreads(s, 16); const auto l = genLaw(s); const bool par = s.chance(1, 2), both = s.chance(1, 2);
    const int mode = int(s.weighted({2, 2, 1})), step = int(s.range(1, 40)); Rng g = s.bulk();
    c.describe(cat(N, " calls, n=", n, " alpha=", l.alpha, " R=", l.R, mode == 0 ? " random seeds" : mode == 1 ? cat(" seeds in steps of ", step) : std::string(" negative seeds"), " threads=", threads, par ? " parallel" : "", both ? " with angles" : "", " build=", CONFIG[cfg]));
    c.label(mode == 0 ? "random seeds" : mode == 1 ? "seeds in steps" : "negative seeds"); c.label(both ? "with angles" : "alone"); c.nontrivial();
    api.setThreads(threads);
    twoStage(c, [&](int) {
        Findings f; std::vector<std::vector<double>> col(static_cast<size_t>(n));
        const int start = int(g.next() >> 34);
        for (int k = 0; k < N; ++k) {
            auto r = sample(api, n, l, mode == 0 ? int(g.next() >> 33) : mode == 1 ? start + k * step : -1 - k, par, both, c); range(r, n, l, c);
            for (int i = 0; i < n; ++i) col[size_t(i)].push_back(cdf(r[size_t(i)], l));
        }
        for (int i = 0; i < n; ++i) testUniform(f, col[size_t(i)], cat("radius ", i, " over seeds"));
        for (int i = 0; i < std::min(n, 6); ++i) {
            for (size_t k = 1; k < 4; ++k) testPair(f, col[size_t(i)].data(), col[size_t(i)].data() + k, col[size_t(i)].size() - k, cat("radius ", i, " of one call and ", k, " calls later"));
            for (int j = i + 1; j < n; ++j) testPair(f, col[size_t(i)].data(), col[size_t(j)].data(), col[size_t(i)].size(), cat("radii ", i, " and ", j, " over seeds"));
        }
        c.count("radii", double(N) * n);
        return f;
    });
}

} // namespace

pbt::Property pbt::define() {
    return {"H06",
        "small: n in 1..3000, alpha in 0.5..8, R in 0.05..80, any seed, thread count and mode, alone and with angles: number, range [0,R), no equal values beyond rounding. bulk: up to 100000 radii (thorough 10^6) of one call, mapped by the distribution function: uniform (DKW bound and tail counts), uncorrelated at small lags and at all lags at which chunks of 2..16 threads line up. seeds: the radius at every index over thousands of seeds (random, in steps, negative), against each other and neighbouring calls. A statistic is reported if p<1e-6/#tests and then p<1e-10 on fresh data. Non-trivial: n > 10, always for the statistical cases.",
        {"alpha*R <= 300 (cosh is finite)", "independence is tested for pairs of draws, in second moments"},
        {{"small", 40000, 600000, small}, {"bulk", 4000, 30000, bulk}, {"seeds", 1200, 8000, seeds}}, [] { hrg("dbg"); hrg("rel"); }};
}
