// Tests of independence between the edges of sampled graphs, shared by G03 and H03.
#pragma once
#include "stat.h"

namespace vp {

using SampleFn = std::function<void(const std::vector<int>& seeds, const OnEdge&)>;

/// presence of given pairs (variables) in many graphs, as bit rows
class Presence {
public:
    /// var(u,v) with u<v: index or -1
    Presence(int vars, int threads, std::function<int(int, int)> var) : m_vars(vars), m_threads(threads), m_var(std::move(var)) {}
    void sample(const std::vector<int>& seeds, const SampleFn& f) {
        m_runs = seeds.size(); m_words = (m_runs + 63) / 64;
        m_bits.assign(size_t(m_vars), std::vector<uint64_t>(m_words, 0));
        std::mutex m;
        const bool lock = m_threads > 1;
        size_t base = 0;
        std::vector<int> part;
        while (base < seeds.size()) {
            part.assign(seeds.begin() + long(base), seeds.begin() + long(std::min(seeds.size(), base + 4096)));
            f(part, [&](size_t run, int u, int v, int) {
                if (u > v) std::swap(u, v);
                const int k = m_var(u, v);
                if (k < 0) return;
                const size_t r = base + run;
                if (lock) { std::lock_guard<std::mutex> l(m); m_bits[size_t(k)][r / 64] |= 1ull << (r % 64); }
                else m_bits[size_t(k)][r / 64] |= 1ull << (r % 64);
            });
            base += part.size();
        }
    }
    double runs() const { return double(m_runs); }
    double count(int a) const { double r = 0; for (auto x : m_bits[size_t(a)]) r += __builtin_popcountll(x); return r; }
    double both(int a, int b) const { double r = 0; for (size_t i = 0; i < m_words; ++i) r += __builtin_popcountll(m_bits[size_t(a)][i] & m_bits[size_t(b)][i]); return r; }
    /// over pairs of consecutive runs (2i, 2i+1): a in the first and b in the second
    double successive(int a, int b, double& na, double& nb) const {
        const uint64_t even = 0x5555555555555555ull; double r = 0; na = nb = 0;
        for (size_t i = 0; i < m_words; ++i) {
            const uint64_t x = m_bits[size_t(a)][i] & even, y = (m_bits[size_t(b)][i] >> 1) & even;
            na += __builtin_popcountll(x); nb += __builtin_popcountll(y); r += __builtin_popcountll(x & y);
        }
        return r;
    }
private:
    int m_vars, m_threads; std::function<int(int, int)> m_var; size_t m_runs = 0, m_words = 0;
    std::vector<std::vector<uint64_t>> m_bits;
};

struct Candidate { double logp; int a, b; bool successive; };

/// N graphs (even), seeds in pairs (s, s+delta). Which pairs of variables to test is up to the caller.
inline void testIndependence(Case& c, Rng& rng, int N, int delta, Presence& pr, const std::vector<std::pair<int, int>>& within, const std::vector<std::pair<int, int>>& across,
                             const SampleFn& f, const std::function<std::string(int)>& name) {
    auto seeds = [&](int k) { std::vector<int> s; for (int i = 0; i < k; i += 2) { const int x = int(rng.next() >> 34); s.push_back(x); s.push_back(x + delta); } return s; };
    pr.sample(seeds(N), f);
    std::vector<Candidate> odd;
    size_t usable = 0;
    auto test = [&](int a, int b, bool succ) {
        double na, nb, k, trials;
        if (succ) { k = pr.successive(a, b, na, nb); trials = pr.runs() / 2; }
        else { na = pr.count(a); nb = pr.count(b); k = pr.both(a, b); trials = pr.runs(); }
        if (na < 3 || nb < 3 || na > trials - 3 || nb > trials - 3) return Candidate{0, a, b, succ};
        ++usable;
        // joint successes and, for small margins, joint failures
        const double lp = std::min(logAssociation(trials, na, nb, k), logAssociation(trials, trials - na, trials - nb, trials - na - nb + k));
        return Candidate{lp, a, b, succ};
    };
    for (auto& p : within) { auto t = test(p.first, p.second, false); if (t.logp < std::log(1e-7)) odd.push_back(t); }
    for (auto& p : across) { auto t = test(p.first, p.second, true); if (t.logp < std::log(1e-7)) odd.push_back(t); }
    c.count("edge pairs tested", double(usable));
    if (odd.empty()) return;
    c.count("second-stage", 1);
    std::sort(odd.begin(), odd.end(), [](const Candidate& a, const Candidate& b) { return a.logp < b.logp; });
    if (odd.size() > 64) odd.resize(64);
    pr.sample(seeds(8 * N), f);
    for (auto& o : odd) {
        auto t = test(o.a, o.b, o.successive);
        if (t.logp < std::log(1e-10)) {
            double na = pr.count(o.a), nb = pr.count(o.b), k = pr.both(o.a, o.b), trials = pr.runs();
            if (o.successive) { k = pr.successive(o.a, o.b, na, nb); trials /= 2; }
            c.fail(cat("edges ", name(o.a), " and ", name(o.b), o.successive ? cat(" of graphs with seeds s and s+", delta) : std::string(" of one graph"), " are not independent: present in ", na, " and ", nb, " of ", trials, " graphs, together in ", k, " instead of about ", na * nb / trials));
        }
    }
}

/// correlation of counts; same two stages
inline void testCorrelation(Case& c, const std::function<std::vector<std::vector<double>>(int)>& counts, int N, const std::string& what) {
    auto corr = [](const std::vector<double>& x, const std::vector<double>& y) {
        const double n = double(x.size()); double mx = 0, my = 0; for (auto v : x) mx += v / n; for (auto v : y) my += v / n;
        double sxx = 0, syy = 0, sxy = 0;
        for (size_t i = 0; i < x.size(); ++i) { sxx += (x[i] - mx) * (x[i] - mx); syy += (y[i] - my) * (y[i] - my); sxy += (x[i] - mx) * (y[i] - my); }
        if (mx < 4 || my < 4 || sxx < 1.5 * n || syy < 1.5 * n) return 0.0;
        return sxy / std::sqrt(sxx * syy);
    };
    auto z = [](double r, double n) { return std::atanh(std::max(-0.999999, std::min(0.999999, r))) * std::sqrt(n - 3); };
    auto a = counts(N);
    std::vector<std::pair<int, int>> odd; size_t usable = 0;
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = i + 1; j < a.size(); ++j) { const double r = corr(a[i], a[j]); usable += r != 0; if (std::fabs(z(r, N)) > 5.5) odd.emplace_back(int(i), int(j)); }
    c.count("region pairs tested", double(usable));
    if (odd.empty()) return;
    c.count("second-stage", 1);
    auto b = counts(4 * N);
    for (auto& o : odd) {
        const double r = corr(b[size_t(o.first)], b[size_t(o.second)]);
        if (std::fabs(z(r, 4.0 * N)) > 8) c.fail(cat(what, " ", o.first, " and ", o.second, ": the numbers of edges have correlation ", r, " over ", 4 * N, " graphs"));
    }
}

} // namespace vp
