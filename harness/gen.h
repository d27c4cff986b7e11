// Generators, oracles and statistics shared by the property files.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <string>
#include <vector>

#include "api.h"
#include "engine.h"

namespace vp {

using pbt::Case;
using pbt::Rng;
using pbt::Source;
using pbt::cat;

constexpr double INF = std::numeric_limits<double>::infinity();
constexpr double PI = 3.14159265358979323846;

// ---------------------------------------------------------------- GIRG inputs
struct GirgOpts {
    int maxSmall = 24;      ///< up to here every coordinate is a recorded choice of its own
    int maxN = 200;         ///< larger instances are drawn in bulk
    unsigned smallShare = 50; ///< percent of cases with n <= maxSmall
    int minN = 1;
    int maxThreads = 8;
    int dims = 5;
    double maxL = 99;       ///< upper limit on log2(W/w_min^2)
    bool sequentialOnly = false;
};
struct GirgInst {
    int n = 0, d = 1, threads = 1;
    Vec w;
    Pos p;
    std::string weightKind, posKind;
    long double W = 0;
    double L = 0; ///< log2(W/w_min^2), decides the depth of the tree
    std::string text() const;
};
GirgInst genGirg(Source& s, const GirgOpts& o);
void fillPositions(Source& s, GirgInst& g, bool small);
int genThreads(Source& s, int max);
double genAlpha(Source& s); ///< finite, > 0

/// torus max-norm distance to the power d
long double distPow(const std::vector<double>& a, const std::vector<double>& b);
/// connection probability, finite alpha
double girgProb(const GirgInst& g, int u, int v, double alpha);
/// 1 edge, 0 no edge, -1 too close to call
int girgThreshold(const GirgInst& g, int u, int v);

// ---------------------------------------------------------------- HRG inputs
struct HrgOpts {
    int maxSmall = 24;
    int maxN = 200;
    unsigned smallShare = 50;
    int minN = 1;
    int maxThreads = 8;
    double maxR = 22;
    bool sequentialOnly = false;
};
struct HrgInst {
    int n = 0, threads = 1;
    double R = 1;
    Vec r, phi;
    std::string kind;
    std::string text() const;
};
HrgInst genHrg(Source& s, const HrgOpts& o);
double genT(Source& s); ///< in (0,1)
/// bounds on cosh(dist): exact value and what rounding may do to it
struct CoshDist { long double value, err; };
CoshDist coshDist(double r1, double p1, double r2, double p2);
int hrgThreshold(const HrgInst& h, int u, int v);
/// interval of the connection probability given rounding of the distance
std::pair<double, double> hrgProb(const HrgInst& h, int u, int v, double T);

// ---------------------------------------------------------------- running
/// collects callback edges per thread id; reports invalid thread ids
class Collector {
public:
    Collector(size_t runs, int maxTid) : m_max(maxTid), m_edges(runs, std::vector<Edges>(size_t(maxTid))) {}
    void operator()(size_t run, int u, int v, int tid) {
        if (tid < 0 || tid >= m_max) { std::lock_guard<std::mutex> l(m_mutex); m_bad = true; m_badTid = tid; m_spill.emplace_back(u, v); return; }
        m_edges[run][size_t(tid)].emplace_back(u, v);
    }
    Edges run(size_t r) const { Edges e; for (auto& t : m_edges[r]) e.insert(e.end(), t.begin(), t.end()); return e; }
    size_t runs() const { return m_edges.size(); }
    bool badTid() const { return m_bad; }
    int theBadTid() const { return m_badTid; }
    const std::vector<Edges>& byThread(size_t r) const { return m_edges[r]; }
private:
    int m_max; std::vector<std::vector<Edges>> m_edges; std::mutex m_mutex; bool m_bad = false; int m_badTid = 0; Edges m_spill;
};

/// sorts pairs to (min,max) and the list; fails on bad ids, self loops and duplicates
Edges canonical(Edges e, int n, Case& c, const std::string& what);
Edges sortedCopy(Edges e);
std::string edgeText(const std::pair<int, int>& e);
int genSeed(Source& s); ///< non-negative, leaves room for seed+thread

// ---------------------------------------------------------------- statistics
/// upper bound on log P(at least / at most x | N independent trials with success probabilities summing to mu)
double logTailUpper(double x, double N, double muHi);
double logTailLower(double x, double N, double muLo);

/// A family of counting tests on groups of Bernoulli trials. Two stages: what looks odd in the first sample
/// is decided on fresh samples only.
struct Group { std::string name; double trials = 0, muLo = 0, muHi = 0, obs = 0; };

double logErfcTail(double z); ///< log of the two sided normal tail
/// Kolmogorov-Smirnov: log of an upper bound (DKW) on P(D >= d)
double logDkw(double n, double d);

} // namespace vp
