// Tests that columns of numbers are independent and uniform in [0,1); two stages, fresh data decide.
#pragma once
#include <functional>
#include <unordered_set>
#include "gen.h"

namespace vp {

struct Finding { std::string name; double logp; };
using Findings = std::vector<Finding>;

inline double logZ(double z) { return logErfcTail(std::fabs(z)); }

/// one column is uniform
inline void testUniform(Findings& f, std::vector<double> u, const std::string& name) {
    std::sort(u.begin(), u.end());
    const double n = double(u.size()); double d = 0, sum = 0;
    for (size_t i = 0; i < u.size(); ++i) { d = std::max(d, std::max(double(i + 1) / n - u[i], u[i] - double(i) / n)); sum += u[i] - 0.5; }
    f.push_back({name + " (distribution)", logDkw(n, d)});
    // the tails, where the supremum distance is insensitive
    for (double q : {0.001, 0.01, 0.99, 0.999}) {
        if (n * std::min(q, 1 - q) < 20) continue;
        const double x = double(std::lower_bound(u.begin(), u.end(), q) - u.begin());
        f.push_back({name + cat(" (share below ", q, ")"), std::log(2.0) + std::min(logTailUpper(x, n, n * q), logTailLower(x, n, n * q))});
    }
}

/// two columns of equal length are independent, given each is uniform: correlation of values and of distances from the middle
inline void testPair(Findings& f, const double* a, const double* b, size_t n, const std::string& name) {
    if (n < 200) return;
    double s = 0, t = 0, x = 0, y = 0;
    for (size_t i = 0; i < n; ++i) {
        const double p = a[i] - 0.5, q = b[i] - 0.5, pp = p * p * 12 - 1, qq = q * q * 12 - 1;
        s += p * q * 12; t += pp * qq / 0.8; x += p * std::sqrt(12.0) * qq / std::sqrt(0.8); y += pp * q * std::sqrt(12.0) / std::sqrt(0.8);
    }
    const double r = std::sqrt(double(n));
    f.push_back({name + " (linear)", logZ(s / r)}); f.push_back({name + " (even)", logZ(t / r)});
    f.push_back({name + " (odd-even)", logZ(x / r)}); f.push_back({name + " (even-odd)", logZ(y / r)});
}

/// number of pairs of equal values
inline uint64_t duplicates(std::vector<double> v) {
    std::sort(v.begin(), v.end()); uint64_t d = 0;
    for (size_t i = 1; i < v.size(); ++i) d += v[i] == v[i - 1];
    return d;
}

/// every test in the first sample suspicious at p < 1e-6 / #tests has to repeat it at p < 1e-10 on fresh data
inline void twoStage(Case& c, const std::function<Findings(int stage)>& sample) {
    auto a = sample(0);
    c.count("statistics", double(a.size()));
    std::vector<size_t> odd;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].logp < std::log(1e-6 / double(a.size()))) odd.push_back(i);
    if (odd.empty()) return;
    c.count("second-stage", 1);
    auto b = sample(1);
    for (auto i : odd) if (i < b.size() && b[i].logp < std::log(1e-10)) c.fail(cat(b[i].name, ": not as independent uniform values are, bound on the p-value e^", b[i].logp, " on fresh data"));
}

/// lags at which chunks of a parallel loop line up
inline std::vector<size_t> lagsFor(size_t n) {
    std::set<size_t> l{1, 2, 3, 7};
    for (size_t t = 2; t <= 16; ++t) { l.insert(n / t); l.insert((n + t - 1) / t); l.insert(n / t + 2); }
    std::vector<size_t> r; for (auto x : l) if (x && x + 200 <= n) r.push_back(x);
    return r;
}

} // namespace vp
