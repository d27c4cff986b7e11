#include "gen.h"

namespace vp {

using pbt::fmt;

// ---------------------------------------------------------------- GIRG
std::string GirgInst::text() const {
    std::string r = cat("n=", n, " d=", d, " threads=", threads, " weights:", weightKind, " positions:", posKind, " log2(W/wmin^2)=", float(L));
    if (n <= 6) for (int i = 0; i < n; ++i) {
        r += cat(" [w=", w[size_t(i)], " x=(");
        for (size_t k = 0; k < p[size_t(i)].size(); ++k) r += (k ? "," : "") + fmt(p[size_t(i)][k]);
        r += ")]";
    }
    return r;
}

int genThreads(Source& s, int max) {
    if (max <= 1) return 1;
    switch (s.weighted({45, 20, 35})) {
        case 0: return 1;
        case 1: return std::min(2, max);
        default: return int(s.range(1, max));
    }
}

double genAlpha(Source& s) {
    switch (s.weighted({3, 3, 2, 2, 1})) {
        case 0: return s.pick({2.0, 1.5, 3.0, 1.1, 1.25, 5.0, 1.0});
        case 1: return s.real(1.05, 4.0);
        case 2: return s.real(4.0, 12.0);
        case 3: return s.real(0.05, 1.0);
        default: return s.real(12.0, 60.0);
    }
}

static double dyadicCoord(uint64_t bits, int level) { return std::ldexp(double(bits & ((1ull << level) - 1)), -level); }

void fillPositions(Source& s, GirgInst& g, bool small) {
    const int kind = int(s.weighted({40, 14, 12, 12, 8, 8, 6}));
    static const char* names[] = {"uniform", "cell-corners", "mixed-corners", "clusters", "line", "wrap", "few-distinct"};
    g.posKind = names[kind];
    Rng bulk = small ? Rng(0) : s.bulk();
    auto unit = [&] { return small ? s.unit() : bulk.unit(); };
    auto below = [&](uint64_t k) { return small ? s.raw(k) : bulk.below(k); };
    g.p.assign(size_t(g.n), std::vector<double>(size_t(g.d)));
    Pos centers;
    const int k = int(s.range(1, 4));
    for (int i = 0; i < k; ++i) { centers.emplace_back(); for (int j = 0; j < g.d; ++j) centers.back().push_back(s.chance(1, 3) ? 0.0 : s.unit()); }
    const double spread = kind == 3 ? std::exp2(-double(s.range(2, 40))) : 0;
    const int line = int(s.range(0, g.d - 1));
    const double below1 = std::nextafter(1.0, 0.0);
    for (auto& x : g.p) for (int j = 0; j < g.d; ++j) {
        double v = 0;
        switch (kind) {
            case 0: v = unit(); break;
            case 1: v = dyadicCoord(below(256), 1 + int(below(8))); break;
            case 2: { const auto m = below(8); v = m < 4 ? unit() : dyadicCoord(below(256), 1 + int(below(8)));
                if (m == 6) v = v > 0 ? std::nextafter(v, 0.0) : below1; if (m == 7) v = std::min(std::nextafter(v, 1.0), below1); break; }
            case 3: { const auto& c = centers[below(centers.size())]; v = c[size_t(j)] + (unit() - 0.5) * spread; v -= std::floor(v); break; }
            case 4: v = j == line ? unit() : centers[0][size_t(j)]; break;
            case 5: { const auto m = below(4); v = m == 0 ? unit() * 1e-3 : m == 1 ? 1.0 - unit() * 1e-3 : m == 2 ? 0.0 : 0.5 + (unit() - 0.5) * 1e-3; break; }
            default: v = centers[below(centers.size())][size_t(j)]; break;
        }
        if (!(v >= 0)) v = 0;
        if (v >= 1) v = below1;
        x[size_t(j)] = v;
    }
    if (kind == 6) for (auto& x : g.p) { const auto& c = centers[below(centers.size())]; if (below(2)) x = c; }
}

GirgInst genGirg(Source& s, const GirgOpts& o) {
    GirgInst g;
    const bool small = !s.chance(100 - o.smallShare, 100) || o.maxN <= o.maxSmall;
    g.n = small ? int(s.range(o.minN, std::min(o.maxSmall, o.maxN))) : int(s.logRange(std::max(o.minN, o.maxSmall), o.maxN));
    g.d = int(s.range(1, o.dims));
    g.threads = o.sequentialOnly ? 1 : genThreads(s, o.maxThreads);

    const int kind = int(s.weighted({15, 35, 12, 12, 10, 16}));
    static const char* names[] = {"equal", "pareto", "two-classes", "layer-borders", "hub", "log-uniform"};
    g.weightKind = names[kind];
    const double ple = s.pick({2.5, 2.1, 2.9, 3.5, 2.3});
    const double top = std::exp2(double(s.range(1, 14)));
    Rng bulk = small ? Rng(0) : s.bulk();
    auto unit = [&] { return small ? s.unit() : bulk.unit(); };
    auto below = [&](uint64_t k) { return small ? s.raw(k) : bulk.below(k); };
    g.w.resize(size_t(g.n));
    std::vector<char> off(size_t(g.n), 0); // one ulp above or below, after scaling
    for (int i = 0; i < g.n; ++i) {
        double v = 1;
        switch (kind) {
            case 0: v = 1; break;
            case 1: v = std::min(1e6, std::pow(1 - unit(), -1 / (ple - 1))); break;
            case 2: v = below(4) == 3 ? top : 1; break;
            case 3: { v = std::exp2(double(below(8))); const auto m = below(4); if (m == 1 || (m == 2 && v > 1)) off[size_t(i)] = char(m); break; }
            case 4: v = i == 0 ? top : 1 + unit(); break;
            default: v = std::exp2(unit() * std::log2(top)); break;
        }
        g.w[size_t(i)] = v;
    }
    fillPositions(s, g, small);

    // density: the scale c of the weights fixes log2(W/w_min^2) and with it the number of levels
    const double wmin = *std::min_element(g.w.begin(), g.w.end());
    const double sum = std::accumulate(g.w.begin(), g.w.end(), 0.0);
    const double natural = std::log2(sum / wmin / wmin);
    const double cap[] = {0, 17, 15, 14, 13, 12.9};
    const double maxL = std::min(o.maxL, std::min(cap[g.d] + (g.n > 1000 ? 2 : 0), std::log2(double(g.n) + 1) + 7));
    double L = natural;
    switch (s.weighted({40, 40, 10, 10})) {
        case 0: L = s.real(std::min(2.0, maxL), maxL); break;
        case 1: L = s.real(std::max(-2.0, maxL - 6), maxL); break;
        case 2: L = s.real(-6.0, 3.0); break;
        default: L = double(s.range(-1, (long long)maxL)); break; // at level borders
    }
    L = std::min(L, maxL);
    const double c = std::exp2(natural - L);
    for (size_t i = 0; i < g.w.size(); ++i) { auto& x = g.w[i]; x *= c; if (off[i]) x = std::nextafter(x, off[i] == 1 ? INF : 0.0); }
    g.W = 0; for (auto x : g.w) g.W += x;
    g.L = L;
    return g;
}

long double distPow(const std::vector<double>& a, const std::vector<double>& b) {
    long double m = 0;
    for (size_t i = 0; i < a.size(); ++i) { long double x = std::fabs((long double)a[i] - b[i]); x = std::min(x, 1 - x); m = std::max(m, x); }
    long double r = 1; for (size_t i = 0; i < a.size(); ++i) r *= m;
    return r;
}

double girgProb(const GirgInst& g, int u, int v, double alpha) {
    const long double q = (long double)g.w[size_t(u)] * g.w[size_t(v)] / g.W, t = distPow(g.p[size_t(u)], g.p[size_t(v)]);
    if (t <= q) return 1.0;
    return double(powl(q / t, alpha));
}

int girgThreshold(const GirgInst& g, int u, int v) {
    const long double q = (long double)g.w[size_t(u)] * g.w[size_t(v)] / g.W;
    const auto& a = g.p[size_t(u)]; const auto& b = g.p[size_t(v)];
    long double m = 0;
    for (size_t i = 0; i < a.size(); ++i) { long double x = std::fabs((long double)a[i] - b[i]); x = std::min(x, 1 - x); m = std::max(m, x); }
    long double t = 1, slack = m + 4e-16L, hi = 1, lo = 1; // rounding of the coordinate differences is absolute
    const long double under = std::max(0.0L, m - 4e-16L);
    for (int i = 0; i < g.d; ++i) { t *= m; hi *= slack; lo *= under; }
    const long double rel = 1e-12L + 4e-16L * g.n; // summation of W may be reordered
    if (lo * (1 - rel) > q) return 0;
    if (hi * (1 + rel) < q) return 1;
    return -1;
}

// ---------------------------------------------------------------- HRG
std::string HrgInst::text() const {
    std::string s = cat("n=", n, " R=", R, " threads=", threads, " points:", kind);
    if (n <= 6) for (int i = 0; i < n; ++i) s += cat(" [r=", r[size_t(i)], " phi=", phi[size_t(i)], "]");
    return s;
}

double genT(Source& s) {
    switch (s.weighted({4, 3, 1, 1})) {
        case 0: return s.pick({0.5, 0.1, 0.25, 0.75, 0.9});
        case 1: return s.real(0.05, 0.95);
        case 2: return s.real(0.01, 0.05);
        default: return s.real(0.95, 0.995);
    }
}

HrgInst genHrg(Source& s, const HrgOpts& o) {
    HrgInst h;
    const bool small = !s.chance(100 - o.smallShare, 100) || o.maxN <= o.maxSmall;
    h.n = small ? int(s.range(o.minN, std::min(o.maxSmall, o.maxN))) : int(s.logRange(std::max(o.minN, o.maxSmall), o.maxN));
    h.threads = o.sequentialOnly ? 1 : genThreads(s, o.maxThreads);
    switch (s.weighted({35, 25, 15, 15, 10})) {
        case 0: h.R = 2 * std::log(double(h.n) + 1) + s.real(-2.0, 4.0); break;
        case 1: h.R = s.real(1.0, 12.0); break;
        case 2: h.R = double(s.range(1, 14)); break;          // whole number of layers
        case 3: h.R = s.real(1.0, 3.0); break;
        default: h.R = s.real(10.0, o.maxR); break;
    }
    h.R = std::min(std::max(h.R, 1.0), o.maxR);
    const int kind = int(s.weighted({40, 20, 15, 15, 10}));
    static const char* names[] = {"radial-law", "uniform-radius", "layer-borders", "mixed-extremes", "clusters"};
    h.kind = names[kind];
    const double alpha = s.pick({0.75, 0.55, 1.0, 0.9, 0.65});
    Rng bulk = small ? Rng(0) : s.bulk();
    auto unit = [&] { return small ? s.unit() : bulk.unit(); };
    auto below = [&](uint64_t k) { return small ? s.raw(k) : bulk.below(k); };
    const double belowR = std::nextafter(h.R, 0.0), below2pi = std::nextafter(2 * PI, 0.0);
    const double tiny = 2.2e-8; // what the radius sampler can return at the least
    std::vector<double> cr, cp; const int k = int(s.range(1, 4));
    for (int i = 0; i < k; ++i) { cr.push_back(s.real(0.3, 1.0) * h.R); cp.push_back(s.real(0, 2 * PI)); }
    const double spread = std::exp2(-double(s.range(1, 16)));
    h.r.resize(size_t(h.n)); h.phi.resize(size_t(h.n));
    for (int i = 0; i < h.n; ++i) {
        double r = 0, a = unit() * 2 * PI;
        auto law = [&] { return std::acosh(1 + unit() * (std::cosh(alpha * h.R) - 1)) / alpha; };
        auto dyadic = [&] { double x = dyadicCoord(below(1024), 1 + int(below(10))) * 2 * PI; const auto m = below(4); if (m == 1) x = std::nextafter(x, 10.0); if (m == 2) x = x > 0 ? std::nextafter(x, 0.0) : below2pi; return x; };
        switch (kind) {
            case 0: r = law(); break;
            case 1: r = unit() * h.R; break;
            case 2: { r = h.R - double(below(uint64_t(h.R) + 1)); const auto m = below(4); if (m == 1) r = std::nextafter(r, 0.0); if (m == 2) r = std::nextafter(r, h.R); a = dyadic(); break; }
            case 3: { const auto m = below(6); r = m == 0 ? tiny : m == 1 ? belowR : m == 2 ? unit() * 1e-3 : m == 3 ? h.R / 2 : law(); if (below(2)) a = dyadic(); if (below(8) == 7) a = 0; break; }
            default: { const auto c = below(cr.size()); r = cr[c] + (unit() - 0.5) * spread * h.R; a = cp[c] + (unit() - 0.5) * spread; a -= std::floor(a / (2 * PI)) * 2 * PI; break; }
        }
        if (!(r >= tiny)) r = tiny;
        if (r >= h.R) r = belowR;
        if (!(a >= 0)) a = 0;
        if (a >= 2 * PI) a = below2pi;
        h.r[size_t(i)] = r; h.phi[size_t(i)] = a;
    }
    return h;
}

CoshDist coshDist(double r1, double p1, double r2, double p2) {
    const long double s = sinhl(r1) * sinhl(r2), half = sinl(((long double)p1 - p2) / 2);
    const long double v = coshl((long double)r1 - r2) + 2 * half * half * s;
    // whatever formula is used: a few ulps of cosh(r1)cosh(r2) and of the value itself
    return {std::max(1.0L, v), 2e-15L * (coshl(r1) * coshl(r2) + s) + 1e-14L * v};
}

int hrgThreshold(const HrgInst& h, int u, int v) {
    auto d = coshDist(h.r[size_t(u)], h.phi[size_t(u)], h.r[size_t(v)], h.phi[size_t(v)]);
    const long double c = coshl((long double)h.R), slack = 8 * d.err + c * (1e-14L + 1e-15L * h.R);
    if (d.value + slack < c) return 1;
    if (d.value - slack > c) return 0;
    return -1;
}

std::pair<double, double> hrgProb(const HrgInst& h, int u, int v, double T) {
    auto d = coshDist(h.r[size_t(u)], h.phi[size_t(u)], h.r[size_t(v)], h.phi[size_t(v)]);
    const long double lo = acoshl(std::max(1.0L, d.value - 2 * d.err)) * (1 - 1e-14L), hi = acoshl(d.value + 2 * d.err) * (1 + 1e-14L);
    auto p = [&](long double x) { return double(1 / (1 + expl((x - h.R) / (2 * T)))); };
    return {p(hi) * (1 - 1e-12), std::min(1.0, p(lo) * (1 + 1e-12))};
}

// ---------------------------------------------------------------- running
Edges sortedCopy(Edges e) { for (auto& x : e) if (x.first > x.second) std::swap(x.first, x.second); std::sort(e.begin(), e.end()); return e; }
std::string edgeText(const std::pair<int, int>& e) { return cat("{", e.first, ",", e.second, "}"); }

Edges canonical(Edges e, int n, Case& c, const std::string& what) {
    for (auto& x : e) {
        if (x.first < 0 || x.second < 0 || x.first >= n || x.second >= n) c.fail(cat(what, ": edge ", edgeText(x), " has an id outside 0..", n - 1));
        if (x.first == x.second) c.fail(cat(what, ": self loop at vertex ", x.first));
    }
    e = sortedCopy(std::move(e));
    auto it = std::adjacent_find(e.begin(), e.end());
    if (it != e.end()) c.fail(cat(what, ": edge ", edgeText(*it), " is reported more than once"));
    return e;
}

int genSeed(Source& s) {
    switch (s.weighted({1, 3, 1})) {
        case 0: return int(s.range(0, 20));
        case 1: return int(s.range(0, 2000000000));
        default: return int(2147483647 - s.range(0, 100));
    }
}

// ---------------------------------------------------------------- statistics
static double kl(double a, double b) { // Bernoulli relative entropy
    double r = 0;
    if (a > 0) r += a * std::log(a / b);
    if (a < 1) r += (1 - a) * std::log((1 - a) / (1 - b));
    return std::max(0.0, r);
}
double logTailUpper(double x, double N, double mu) {
    if (x <= mu || N <= 0) return 0;
    if (mu <= 0) return -INF;
    if (x > N) return -INF;
    return -N * kl(x / N, mu / N);
}
double logTailLower(double x, double N, double mu) {
    if (x >= mu || N <= 0) return 0;
    if (mu >= N) return x < N * (1 - 1e-15) ? -INF : 0;
    return -N * kl(x / N, mu / N);
}
double logErfcTail(double z) {
    z = std::fabs(z);
    if (z < 20) return std::log(std::max(1e-300, std::erfc(z / std::sqrt(2.0))));
    return -z * z / 2;
}
double logDkw(double n, double d) { return std::min(0.0, std::log(2.0) - 2 * n * d * d); }

} // namespace vp
