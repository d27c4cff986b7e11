// PLUGIN hrg dbg rel
#include "iid.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};

struct Law { double alpha, R; };
Law genLaw(Source& s) { return {s.pick({0.75, 1.0, 0.55}), s.real(3, 30)}; }
double cdf(double r, Law l) { const double q = std::exp((r - l.R) * l.alpha / 2) * std::expm1(-r * l.alpha) / std::expm1(-l.R * l.alpha); return q * q; }

/// angles as shares of the circle, and the radii mapped to [0,1) if both are sampled
struct Data { std::vector<double> u, v; };
Data sample(const Hrg& api, int n, Law l, int seed, bool par, bool both, Case& c) {
    std::pair<Vec, Vec> x; if (both) x = api.both(n, l.alpha, l.R, seed, par); else x.second = api.angles(n, seed, par);
    if (x.second.size() != size_t(n)) c.fail(cat(x.second.size(), " angles instead of ", n));
    if (both && x.first.size() != size_t(n)) c.fail(cat(x.first.size(), " radii instead of ", n));
    Data d;
    for (int i = 0; i < n; ++i) { const double a = x.second[size_t(i)]; if (!(a >= 0 && a < 2 * PI)) c.fail(cat("angle ", i, " is ", a)); d.u.push_back(a / (2 * PI)); }
    if (both) for (auto r : x.first) d.v.push_back(cdf(r, l));
    if (duplicates(x.second) > 2) c.fail(cat(duplicates(x.second), " pairs of equal angles among ", n));
    if (std::count(x.second.begin(), x.second.end(), 0.0) > 1) c.fail("angles left at zero");
    c.count("angles", n);
    return d;
}
/// draws used for a radius and an angle: the same share of their range, forwards or backwards
void sharedDraws(const Data& d, Case& c) {
    if (d.v.empty()) return;
    const size_t n = d.u.size();
    for (int shift = -3; shift <= 3; ++shift) {
        size_t same = 0, back = 0, tries = 0;
        for (size_t i = 0; i < n; ++i) { const long long j = (long long)i + shift; if (j < 0 || j >= (long long)n) continue; ++tries; same += std::fabs(d.u[i] - d.v[size_t(j)]) < 1e-7; back += std::fabs(d.u[i] - (1 - d.v[size_t(j)])) < 1e-7; }
        const double lim = double(tries) * 2e-7;
        for (auto x : {same, back}) if (x > 2 && logTailUpper(double(x), double(tries), lim) < std::log(1e-13)) c.fail(cat(x, " of ", tries, " angles use the draw of the radius of point i", shift >= 0 ? "+" : "", shift));
    }
}
int bulkSize(Source& s, Case& c) { return int(s.weighted({3, 2}) == 0 ? s.pick({10000, 10001, 19999, 20000, 20001, 30000, 50003, 80000, 100000}) : s.logRange(2000, c.thorough ? 1000000 : 100000)); }

void small(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    const int n = int(s.logRange(1, 3000)), seed = s.chance(1, 8) ? -1 : genSeed(s), threads = genThreads(s, 16); const auto l = genLaw(s); const bool par = s.chance(1, 2), both = s.chance(1, 2);
    c.describe(cat("n=", n, " seed=", seed, " threads=", threads, par ? " parallel" : "", both ? " with radii" : "", " build=", CONFIG[cfg]));
    c.label(par ? "parallel" : "sequential"); c.label(both ? "with radii" : "alone"); c.nontrivial(n > 10);
    api.setThreads(threads);
    sharedDraws(sample(api, n, l, seed, par, both, c), c);
}

void bulk(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    const int n = bulkSize(s, c), threads = genThreads(s, 16); const auto l = genLaw(s); const bool par = s.chance(3, 4), both = s.chance(2, 3);
    const int first = genSeed(s); Rng g = s.bulk(); const bool negative = s.chance(1, 8);
    c.describe(cat("n=", n, negative ? " negative seed" : cat(" seed=", first), " threads=", threads, par ? " parallel" : "", both ? cat(" with radii, alpha=", l.alpha, " R=", l.R) : std::string(), " build=", CONFIG[cfg]));
    c.label(par ? threads > 1 && n > 10000 ? "really parallel" : "parallel" : "sequential"); c.label(both ? "with radii" : "alone"); c.nontrivial(); if (negative) c.label("negative seed");
    api.setThreads(threads);
    twoStage(c, [&](int stage) {
        Findings f;
        auto d = sample(api, n, l, negative ? -1 : stage == 0 ? first : int(g.next() >> 34), par, both, c); sharedDraws(d, c);
        testUniform(f, d.u, "angles");
        if (both) testPair(f, d.u.data(), d.v.data(), d.u.size(), "angle and radius of a point");
        for (auto k : lagsFor(d.u.size())) {
            testPair(f, d.u.data(), d.u.data() + k, d.u.size() - k, cat("angles i and i+", k));
            if (both) { testPair(f, d.u.data(), d.v.data() + k, d.u.size() - k, cat("angle i and radius i+", k)); testPair(f, d.v.data(), d.u.data() + k, d.u.size() - k, cat("radius i and angle i+", k)); }
        }
        return f;
    });
}

void seeds(Source& s, Case& c) {
    const int cfg = int(s.raw(2)); auto& api = hrg(CONFIG[cfg]);
    const int n = int(s.range(1, 30)), N = c.thorough ? 20000 : 4000, threads = genThreads(s, 16); const auto l = genLaw(s); const bool par = s.chance(1, 2), both = s.chance(1, 2);
    const int mode = int(s.weighted({2, 2, 1})), step = int(s.range(1, 40)); Rng g = s.bulk();
    c.describe(cat(N, " calls, n=", n, mode == 0 ? " random seeds" : mode == 1 ? cat(" seeds in steps of ", step) : std::string(" negative seeds"), " threads=", threads, par ? " parallel" : "", both ? cat(" with radii, alpha=", l.alpha, " R=", l.R) : std::string(), " build=", CONFIG[cfg]));
    c.label(mode == 0 ? "random seeds" : mode == 1 ? "seeds in steps" : "negative seeds"); c.label(both ? "with radii" : "alone"); c.nontrivial();
    api.setThreads(threads);
    twoStage(c, [&](int) {
        Findings f; std::vector<std::vector<double>> u(static_cast<size_t>(n)), v(static_cast<size_t>(n));
        const int start = int(g.next() >> 34);
        for (int k = 0; k < N; ++k) {
            auto d = sample(api, n, l, mode == 0 ? int(g.next() >> 33) : mode == 1 ? start + k * step : -1 - k, par, both, c);
            for (int i = 0; i < n; ++i) { u[size_t(i)].push_back(d.u[size_t(i)]); if (both) v[size_t(i)].push_back(d.v[size_t(i)]); }
        }
        for (int i = 0; i < n; ++i) testUniform(f, u[size_t(i)], cat("angle ", i, " over seeds"));
        for (int i = 0; i < std::min(n, 6); ++i) {
            auto& a = u[size_t(i)];
            for (size_t k = 1; k < 4; ++k) testPair(f, a.data(), a.data() + k, a.size() - k, cat("angle ", i, " of one call and ", k, " calls later"));
            for (int j = i + 1; j < n; ++j) testPair(f, a.data(), u[size_t(j)].data(), a.size(), cat("angles ", i, " and ", j, " over seeds"));
            if (both) for (int j = 0; j < std::min(n, 6); ++j) testPair(f, a.data(), v[size_t(j)].data(), a.size(), cat("angle ", i, " and radius ", j, " over seeds"));
        }
        return f;
    });
}

} // namespace

pbt::Property pbt::define() {
    return {"H07",
        "small: n in 1..3000, any seed, thread count and mode, alone and with radii: number, range [0,2pi), no equal values, no draw shared between radii and angles. bulk: up to 100000 angles (thorough 10^6) of one call: uniform (DKW bound and tail counts), uncorrelated with each other and with the radii at small lags and at all lags at which chunks of 2..16 threads line up. seeds: the angle at every index over thousands of seeds (random, in steps, negative), against other angles, radii and neighbouring calls. A statistic is reported if p<1e-6/#tests and then p<1e-10 on fresh data. Non-trivial: n > 10, always for the statistical cases.",
        {"independence is tested for pairs of draws, in second moments"},
        {{"small", 40000, 600000, small}, {"bulk", 3000, 25000, bulk}, {"seeds", 1000, 8000, seeds}}, [] { hrg("dbg"); hrg("rel"); }};
}
