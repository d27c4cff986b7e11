// Counting tests on sampled graphs, shared by the probability checks.
#pragma once
#include <functional>
#include "gen.h"

namespace vp {

/// Counts on groups of vertex pairs over many sampled graphs are compared with the sums of their model probabilities.
/// Two stages: a group that looks odd (bound on the p-value below 1e-5..1e-6) is judged on eight times as many
/// fresh samples and reported only if the Chernoff-Hoeffding bound on its p-value is below 1e-9.
class EdgeStats {
public:
    using Prob = std::function<std::pair<double, double>(int, int)>; ///< lower and upper limit on the probability
    using Sample = std::function<void(const std::vector<int>& seeds, const OnEdge&)>;
    explicit EdgeStats(int n) : m_n(n) {}
    int group(const std::string& name) { m_groups.push_back({name}); return int(m_groups.size()) - 1; }
    /// declares that a pair with the given probabilities is a member of the groups
    void add(std::initializer_list<int> groups, double lo, double hi) { for (int g : groups) { auto& x = m_groups[size_t(g)]; x.trials += 1; x.muLo += lo; x.muHi += hi; } }
    std::vector<Group>& groups() { return m_groups; }

    /// members(u,v,out): groups of a pair (u<v)
    void run(Case& c, Rng& seeds, int N, int concurrency, const Sample& sample, const std::function<void(int, int, std::vector<int>&)>& members) {
        count(seeds, N, concurrency, sample, members);
        std::vector<size_t> odd;
        for (size_t i = 0; i < m_groups.size(); ++i) if (logp(m_groups[i], N) < std::log(1e-5)) odd.push_back(i);
        if (odd.empty()) return;
        std::sort(odd.begin(), odd.end(), [&](size_t a, size_t b) { return logp(m_groups[a], N) < logp(m_groups[b], N); });
        if (odd.size() > 64) odd.resize(64);
        c.count("second-stage", 1);
        count(seeds, 8 * N, concurrency, sample, members);
        for (auto i : odd) {
            const auto& g = m_groups[i];
            if (logp(g, 8.0 * N) < std::log(1e-9))
                c.fail(cat("edges in ", g.name, " (", g.trials, " pairs): ", g.obs, " observed in ", 8 * N, " graphs, expected between ", 8.0 * N * g.muLo, " and ", 8.0 * N * g.muHi, ", p < 1e-9 on fresh samples"));
        }
    }
private:
    static double logp(const Group& g, double N) { return std::log(2.0) + std::min(logTailUpper(g.obs, N * g.trials, N * g.muHi), logTailLower(g.obs, N * g.trials, N * g.muLo)); }
    void count(Rng& r, int N, int concurrency, const Sample& sample, const std::function<void(int, int, std::vector<int>&)>& members) {
        std::vector<std::vector<double>> per(static_cast<size_t>(concurrency), std::vector<double>(m_groups.size()));
        std::vector<std::vector<int>> scratch(static_cast<size_t>(concurrency));
        std::mutex m; std::string bad;
        for (int done = 0; done < N;) {
            std::vector<int> s;
            for (; done < N && s.size() < 4096; ++done) s.push_back(int(r.next() >> 33) & 0x7fffffbf);
            sample(s, [&](size_t, int u, int v, int tid) {
                if (u > v) std::swap(u, v);
                if (u < 0 || v >= m_n || u == v || tid < 0 || tid >= concurrency) { std::lock_guard<std::mutex> l(m); bad = cat("invalid edge ", u, ",", v, " from thread ", tid); return; }
                auto& out = scratch[size_t(tid)]; out.clear();
                members(u, v, out);
                for (int g : out) per[size_t(tid)][size_t(g)] += 1;
            });
        }
        if (!bad.empty()) throw pbt::Failure(bad);
        for (size_t g = 0; g < m_groups.size(); ++g) { m_groups[g].obs = 0; for (auto& p : per) m_groups[g].obs += p[g]; }
    }
    int m_n;
    std::vector<Group> m_groups;
};

/// Pearson style association of two 0/1 variables given their margins: log of a bound on the two sided p-value of
/// seeing `both` joint successes in N trials with a and b successes (hypergeometric, Hoeffding's bound)
inline double logAssociation(double N, double a, double b, double both) {
    if (a > b) std::swap(a, b);
    if (a <= 0 || b >= N) return 0;
    const double x = both / a, p = b / N;
    auto kl = [](double u, double v) { double r = 0; if (u > 0) r += u * std::log(u / v); if (u < 1) r += (1 - u) * std::log((1 - u) / (1 - v)); return std::max(0.0, r); };
    if (x == p) return 0;
    return std::log(2.0) - a * kl(x, p);
}

} // namespace vp
