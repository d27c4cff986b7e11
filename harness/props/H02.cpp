// PLUGIN hrg dbg rel
#include "stat.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"dbg", "rel"};
constexpr double CUT = 1e-6; // documented: pairs below may be lost

double treeCost(const HrgInst& h, double levels) { return 40 + 6 * std::exp2(std::min(levels, 14.0)) * 3 + h.n * double(h.n) / 6 + (h.threads > 1 ? 20000 + 6000.0 * h.threads : 0); }
double levelsOf(const HrgInst& h) { return std::max(0.0, (h.R - 2) / std::log(2.0) * 0.5 + 2); }

void judge(Source& s, Case& c, const HrgInst& h, double T, int N) {
    const int cfg = int(s.weighted({1, 3}));
    auto& api = hrg(CONFIG[cfg]);
    c.describe(cat(h.text(), " T=", T, " graphs=", N, " build=", CONFIG[cfg]));
    c.label("x:" + h.kind); if (h.threads > 1) c.label("parallel"); c.label(CONFIG[cfg]); c.label(h.R < 3 ? "R<3" : h.R < 8 ? "R<8" : "R>=8");
    EdgeStats st(h.n);
    const int total = st.group("the whole graph");
    std::vector<int> vert; for (int v = 0; v < h.n; ++v) vert.push_back(st.group(cat("vertex ", v)));
    std::vector<int> bins; for (int b = 0; b < 28; ++b) bins.push_back(st.group(cat("probability class ", b)));
    std::vector<int> cls(size_t(h.n) * size_t(h.n)), own(cls.size());
    int open = 0;
    for (int u = 0; u < h.n; ++u) for (int v = u + 1; v < h.n; ++v) {
        auto pr = hrgProb(h, u, v, T);
        const double p = pr.second;
        const int cl = p < 0.5 ? std::max(0, 20 + int(std::floor(std::log2(std::max(1e-300, p))))) : p < 0.6 ? 20 : p < 0.7 ? 21 : p < 0.8 ? 22 : p < 0.9 ? 23 : p < 0.95 ? 24 : p < 0.99 ? 25 : p < 0.999 ? 26 : 27;
        const int own_ = st.group(cat("pair ", edgeText({u, v})));
        cls[size_t(u) * size_t(h.n) + size_t(v)] = bins[size_t(cl)]; own[size_t(u) * size_t(h.n) + size_t(v)] = own_;
        st.add({own_, total, bins[size_t(cl)], vert[size_t(u)], vert[size_t(v)]}, std::max(0.0, pr.first - CUT), pr.second);
        if (p * N > 5 && (1 - p) * N > 0.5) ++open;
    }
    api.setThreads(h.threads);
    Rng seeds = s.bulk();
    st.run(c, seeds, N, std::max(1, h.threads), [&](const std::vector<int>& sd, const OnEdge& f) { api.tree(h.r, h.phi, T, h.R, false, sd, f); },
        [&](int u, int v, std::vector<int>& out) {
            const auto i = size_t(u) * size_t(h.n) + size_t(v);
            out.push_back(own[i]); out.push_back(cls[i]); out.push_back(total); out.push_back(vert[size_t(u)]); out.push_back(vert[size_t(v)]);
        });
    c.count("graphs", N); c.count("pairs with 0<p<1", open); c.nontrivial(open > 0);
}

void pairs(Source& s, Case& c) {
    HrgOpts o; o.minN = 2; o.maxSmall = 26; o.maxN = 26; o.smallShare = 100; o.maxThreads = 4; o.maxR = 13;
    auto h = genHrg(s, o);
    const double T = genT(s);
    const int N = int(std::min(6000.0, std::max(300.0, (c.thorough ? 4e7 : 1.5e7) / treeCost(h, levelsOf(h)))));
    judge(s, c, h, T, N);
}

/// groups of points with small angular extent at two heights, several cells apart
void blocks(Source& s, Case& c) {
    HrgInst h; h.threads = genThreads(s, 4); h.kind = "blocks";
    const int k = int(s.range(2, 4)), m = int(s.range(1, 12));
    h.n = k * m; h.R = s.real(4.0, 11.0);
    const double T = genT(s), depth = s.real(0.0, 1.0), target = std::exp2(-s.real(1.5, 8.0));
    const double r0 = h.R - depth * std::min(3.0, h.R / 2) - 1e-3;
    // distance with the wanted probability, and the angle of two points at r0 at that distance
    const double want = h.R + 2 * T * std::log(1 / target - 1);
    const double x = (std::cosh(want) - 1) / (std::sinh(r0) * std::sinh(r0)); // 1 - cos
    const double angle = x >= 2 ? PI : std::acos(1 - x);
    const double spread = angle * std::exp2(-double(s.range(3, 8))), at = s.real(0, 2 * PI);
    for (int i = 0; i < h.n; ++i) {
        const int b = i % k;
        double a = at + b * angle + (s.unit() - 0.5) * spread; a -= std::floor(a / (2 * PI)) * 2 * PI;
        if (!(a >= 0 && a < 2 * PI)) a = 0;
        h.phi.push_back(a); h.r.push_back(r0 - 0.05 * s.unit());
    }
    const int N = int(std::min(12000.0, std::max(500.0, (c.thorough ? 6e7 : 2.5e7) / treeCost(h, levelsOf(h)))));
    judge(s, c, h, T, N);
}

/// few points per cell in the outermost layers, so that most pairs of cells expect far less than one edge
void sparse(Source& s, Case& c) {
    HrgInst h; h.threads = genThreads(s, 4); h.kind = "sparse";
    h.n = int(s.logRange(4, 130)); h.R = s.real(6.0, 14.0);
    const double T = s.chance(2, 3) ? s.real(0.3, 0.97) : genT(s);
    const int layers = int(s.range(1, 3)); const double jitter = s.pick({0.0, 0.3, 1.0});
    for (int i = 0; i < h.n; ++i) {
        double a = (i + 0.5 + jitter * (s.unit() - 0.5)) / h.n * 2 * PI;
        if (!(a >= 0 && a < 2 * PI)) a = 0;
        h.phi.push_back(a); h.r.push_back(std::max(0.01, h.R - double(s.range(0, layers - 1)) - s.real(0.6, 0.999)));
    }
    const int N = int(std::min(60000.0, std::max(500.0, (c.thorough ? 2e8 : 1.2e8) / treeCost(h, levelsOf(h)))));
    judge(s, c, h, T, N);
}

/// temperatures close to 0: pairs of points placed at distances at which the probability is neither 0 nor 1
void cold(Source& s, Case& c) {
    HrgInst h; h.threads = genThreads(s, 4); h.kind = "cold"; h.R = s.real(1.0, 13.0);
    const double T = std::exp2(-s.real(4.0, 36.0));
    const int k = int(s.range(1, 10));
    for (int i = 0; i < k; ++i) {
        // both radii above R/2, so that some angle puts the points at distance R
        const double r1 = h.R * s.real(0.501, 0.9999), r2 = h.R * s.real(0.501, 0.9999), want = h.R + 2 * T * s.real(-3.0, 3.0);
        const double x = (std::cosh(want) - std::cosh(r1 - r2)) / (std::sinh(r1) * std::sinh(r2)); // 1 - cos
        const double angle = 2 * std::asin(std::sqrt(std::min(1.0, std::max(0.0, x / 2)))), at = s.real(0, 2 * PI);
        for (int j = 0; j < 2; ++j) {
            double a = at + j * angle; if (a >= 2 * PI) a -= 2 * PI;
            if (!(a >= 0 && a < 2 * PI)) a = 0;
            h.phi.push_back(a); h.r.push_back(j ? r2 : r1);
        }
    }
    h.n = 2 * k;
    const int N = int(std::min(4000.0, std::max(300.0, (c.thorough ? 4e7 : 1e7) / treeCost(h, levelsOf(h)))));
    judge(s, c, h, T, N);
}

void large(Source& s, Case& c) {
    HrgOpts o; o.minN = 100; o.maxSmall = 0; o.smallShare = 0; o.maxN = c.thorough ? 4000 : 2500; o.maxThreads = 8; o.maxR = 18;
    auto h = genHrg(s, o);
    const double T = genT(s);
    const int cfg = int(s.weighted({1, 3}));
    auto& api = hrg(CONFIG[cfg]);
    c.label("x:" + h.kind); if (h.threads > 1) c.label("parallel"); c.label(CONFIG[cfg]); c.label(h.R < 3 ? "R<3" : h.R < 8 ? "R<8" : "R>=8");
    EdgeStats st(h.n);
    const int nl = std::min(6, int(std::ceil(h.R)));
    std::vector<int> layer, cell; std::vector<double> ch, sh;
    for (int v = 0; v < h.n; ++v) {
        layer.push_back(std::min(nl - 1, int(h.R - h.r[size_t(v)]))); cell.push_back(std::min(7, int(h.phi[size_t(v)] / 2 / PI * 8)));
        ch.push_back(std::cosh(h.r[size_t(v)])); sh.push_back(std::sinh(h.r[size_t(v)]));
    }
    auto dist = [&](int u, int v, double& err) { // double precision distance and its uncertainty
        const double si = std::sin((h.phi[size_t(u)] - h.phi[size_t(v)]) / 2), a = sh[size_t(u)] * sh[size_t(v)], b = ch[size_t(u)] * ch[size_t(v)];
        const double x = std::max(1.0, std::cosh(h.r[size_t(u)] - h.r[size_t(v)]) + 2 * si * si * a);
        const double d = std::acosh(x), e = 4e-15 * (b + a) + 2e-14 * x;
        err = std::acosh(x + e) - std::acosh(std::max(1.0, x - e)) + 1e-13;
        return d;
    };
    const int PC = 24, DC = 24, base0 = 0;
    for (int i = 0; i < PC; ++i) for (int j = 0; j < DC; ++j) st.group(cat("probability/angle class ", i, "/", j));
    const int base1 = base0 + PC * DC;
    for (int i = 0; i < 36; ++i) for (int j = 0; j < PC; ++j) st.group(cat("layer pair ", i / 6, "/", i % 6, " probability class ", j));
    const int base2 = base1 + 36 * PC;
    for (int i = 0; i < 64; ++i) st.group(cat("region pair ", i / 8, "/", i % 8));
    const int base3 = base2 + 64;
    for (int i = 0; i < 16; ++i) st.group(cat("vertex class ", i));
    auto members = [&](int u, int v, std::array<int, 4>& out, double& err) {
        const double d = dist(u, v, err), z = (d - h.R) / (2 * T), p = 1 / (1 + std::exp(z));
        const int pc = p < 0.5 ? std::max(0, 12 + int(std::floor(std::log2(p)))) : std::min(23, 11 + int(-std::log2(std::max(1e-300, 1 / (1 + std::exp(-z))))));
        double a = std::fabs(h.phi[size_t(u)] - h.phi[size_t(v)]); a = std::min(a, 2 * PI - a);
        const int dc = a <= 0 ? 0 : std::min(DC - 1, std::max(0, DC - 2 + int(std::floor(std::log2(a)))));
        const int la = std::min(layer[size_t(u)], layer[size_t(v)]), lb = std::max(layer[size_t(u)], layer[size_t(v)]);
        const int ca = std::min(cell[size_t(u)], cell[size_t(v)]), cb = std::max(cell[size_t(u)], cell[size_t(v)]);
        out = {{base0 + pc * DC + dc, base1 + (la * 6 + lb) * PC + pc, base2 + ca * 8 + cb, base3 + (u * 7 + v * 7) % 16}};
        return p;
    };
    double mean = 0; std::array<int, 4> o4;
    for (int u = 0; u < h.n; ++u) for (int v = u + 1; v < h.n; ++v) {
        double err; const double p = members(u, v, o4, err); mean += p;
        const double wob = std::min(1.0, err / (2 * T) * 1.01 + 1e-12);
        st.add({o4[0], o4[1], o4[2], o4[3]}, std::max(0.0, p * (1 - wob) - CUT), std::min(1.0, p * (1 + wob)));
    }
    if (mean > 1.2e6) c.skip();
    const int N = int(std::min(400.0, std::max(6.0, (c.thorough ? 1.2e8 : 2.5e7) / (treeCost(h, levelsOf(h)) - h.n * double(h.n) / 6 + 30 * mean + 40.0 * h.n))));
    c.describe(cat(h.text(), " T=", T, " graphs=", N, " expected edges=", mean, " build=", CONFIG[cfg]));
    api.setThreads(h.threads);
    Rng seeds = s.bulk();
    st.run(c, seeds, N, std::max(1, h.threads), [&](const std::vector<int>& sd, const OnEdge& f) { api.tree(h.r, h.phi, T, h.R, false, sd, f); },
        [&](int u, int v, std::vector<int>& out) { std::array<int, 4> k; double err; members(u, v, k, err); out.assign(k.begin(), k.end()); });
    c.count("graphs", N); c.count("expected edges", mean * N); c.nontrivial(mean > 1);
}

} // namespace

pbt::Property pbt::define() {
    return {"H02",
        "A case is a point set (small and arbitrary; blocks of points sharing a cell pair; few points per cell in the outermost layers; pairs near distance R at temperatures down to 2^-36; hundreds to thousands of points), R, T, thread count and build, sampled with many spread seeds; per-pair counts and counts of groups of pairs (vertex, probability class, angle, layers, region) are compared with the closed formula. Non-trivial: some pair with 0<p<1 is expected at least five times (large: more than one expected edge).",
        {"group statistics use the independence of the edges of one graph (checked by H03)", "losses below 1e-6 per pair and rounding of the distance are allowed for",
         "a deviation is reported only if its p-value bound is below 1e-9 on samples not used to find it; smaller deviations go unnoticed", "T >= 2^-36"},
        {{"pairs", 1200, 30000, pairs}, {"blocks", 600, 16000, blocks}, {"sparse", 400, 4000, sparse}, {"cold", 400, 10000, cold}, {"large", 120, 2500, large, 2}}, [] { hrg("dbg"); hrg("rel"); }};
}
