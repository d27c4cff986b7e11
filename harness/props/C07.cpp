// PLUGIN girg dbg rel
// PLUGIN hrg dbg rel
#include "gen.h"
#include <girgs/Hyperbolic.h>
using namespace vp;

namespace {

double belowTwoPi() { return std::nextafter(2 * PI, 0.0); }

void mapping(Source& s, Case& c) {
    const double R = s.chance(1, 4) ? double(s.range(1, 40)) : s.real(1, 40);
    auto radius = [&] { switch (s.weighted({4, 1, 1, 1})) { case 0: return s.unit() * R; case 1: return R; case 2: return 0.0; default: return R - std::ldexp(s.unit(), -int(s.range(0, 40))); } };
    auto angle = [&] { double a; switch (s.weighted({4, 2, 1, 1})) { case 0: a = s.unit() * 2 * PI; break; case 1: a = std::ldexp(double(s.raw(1024)), -10) * 2 * PI; break; case 2: a = belowTwoPi(); break; default: a = std::ldexp(s.unit(), -int(s.range(0, 60))); } return std::min(a, belowTwoPi()); };
    const double r = std::max(0.0, radius()), q = std::max(0.0, radius()), a = angle(), b = angle(), scaling = std::exp2(s.real(-20, 20));
    c.describe(cat("R=", R, " r=", r, " r2=", q, " angle=", a, " angle2=", b, " scaling=", scaling));
    c.nontrivial(r != q && a != b);
    const double w = girgs::radiusToGirgWeight(r, R), want = double(expl(((long double)R - r) / 2));
    if (std::fabs(w - want) > want * 1e-14) c.fail(cat("radius ", r, " is mapped to weight ", w, ", expected ", want));
    if (girgs::radiusToGirgWeight(R, R) != 1.0) c.fail("the border of the disc is not mapped to weight 1");
    if (std::fabs(girgs::girgWeightToRadius(w, R) - r) > 1e-14 * R + 1e-14) c.fail(cat("radius ", r, " comes back as ", girgs::girgWeightToRadius(w, R)));
    if (std::fabs(girgs::girgWeightToRadius(w * scaling, R, scaling) - r) > 2e-14 * (R + 30)) c.fail(cat("radius ", r, " comes back as ", girgs::girgWeightToRadius(w * scaling, R, scaling), " with scaled weights"));
    const double back = girgs::radiusToGirgWeight(girgs::girgWeightToRadius(w, R), R);
    if (std::fabs(back - w) > 1e-13 * w * (1 + R)) c.fail(cat("weight ", w, " comes back as ", back));
    const double w2 = girgs::radiusToGirgWeight(q, R);
    if (r < q ? w < w2 : w2 < w) c.fail(cat("the mapping of radii to weights is not decreasing: ", r, " -> ", w, ", ", q, " -> ", w2));
    if (std::fabs(r - q) > 1e-13 * R && w == w2) c.fail("different radii are mapped to one weight");
    // points beyond the scaled range
    const double f = std::exp2(s.real(-3, 20)), fr = girgs::girgWeightToRadius(f, R, scaling), fw = double(R - 2 * (logl((long double)f) - logl((long double)scaling)));
    if (std::fabs(fr - fw) > 1e-13 * (1 + R + std::fabs(fw))) c.fail(cat("weight ", f, " with scaling ", scaling, " is mapped to radius ", fr, ", expected ", fw));
    const double x = girgs::angleToGirgPosition(a), y = girgs::angleToGirgPosition(b);
    const double wx = double((long double)a / (2 * 3.14159265358979323846264338327950288L));
    if (!(x >= 0 && x < 1)) c.fail(cat("angle ", a, " is mapped to position ", x, " outside [0,1)"));
    if (std::fabs(x - wx) > 4e-16 * (1 + wx)) c.fail(cat("angle ", a, " is mapped to position ", x, ", expected ", wx));
    if (girgs::angleToGirgPosition(0) != 0) c.fail("angle 0 is not mapped to position 0");
    const double ba = girgs::girgPositionToAngle(x);
    if (std::fabs(ba - a) > 1e-15 * (1 + a) || !(ba >= 0 && ba <= 2 * PI)) c.fail(cat("angle ", a, " comes back as ", ba));
    if (a < b ? x > y : y > x) c.fail(cat("the mapping of angles is not increasing: ", a, " -> ", x, ", ", b, " -> ", y));
    if (std::fabs(a - b) > 1e-14 && x == y) c.fail("different angles are mapped to one position");
    const double pos = std::min(s.unit(), std::nextafter(1.0, 0.0)), pa = girgs::girgPositionToAngle(pos);
    if (!(pa >= 0 && pa < 2 * PI) || std::fabs(girgs::angleToGirgPosition(pa) - pos) > 1e-15) c.fail(cat("position ", pos, " is mapped to angle ", pa, " and back to ", girgs::angleToGirgPosition(pa)));
}

// sin^2(theta/2) = q^2 A with q = w_u w_v e^{-R/2} and 1/4 <= A <= 1 for r_u + r_v > R; below, every pair is connected and q >= 1.
// Hence |x| < q/(2 pi) implies an HRG edge, which implies |x| <= q/2.
void sandwich(Source& s, Case& c) {
    HrgOpts o; o.maxSmall = 20; o.maxN = c.thorough ? 600 : 250; o.smallShare = 40; o.maxThreads = 8; o.maxR = 13; o.minN = 2;
    auto h = genHrg(s, o);
    const std::string cfg = s.raw(2) ? "rel" : "dbg"; const int seed = genSeed(s);
    c.describe(cat(h.text(), " seed=", seed, " build=", cfg)); c.label("x:" + h.kind); c.label(cfg);
    const auto n = size_t(h.n);
    hrg(cfg).setThreads(h.threads); girg(cfg).setThreads(h.threads);
    auto edges = canonical(hrg(cfg).edges(h.r, h.phi, 0.0, h.R, seed), h.n, c, "threshold HRG");
    Vec w(n); Pos p(n, std::vector<double>(1));
    long double W = 0;
    for (size_t i = 0; i < n; ++i) { w[i] = girgs::radiusToGirgWeight(h.r[i], h.R); p[i][0] = girgs::angleToGirgPosition(h.phi[i]); W += w[i]; }
    const long double unit = expl(-(long double)h.R / 2);
    auto q = [&](int u, int v) { return (long double)w[size_t(u)] * w[size_t(v)] * unit; };
    auto gap = [&](int u, int v) { long double x = fabsl((long double)p[size_t(u)][0] - p[size_t(v)][0]); return std::min(x, 1 - x); };
    const long double lower = 1 / (2 * 3.14159265358979323846L), upper = 0.5L;
    std::set<std::pair<int, int>> E(edges.begin(), edges.end());
    uint64_t in = 0, out = 0;
    auto slack = [&](int u, int v) { return 1e-9L * (q(u, v)) + 1e-15L + 1e-14L * q(u, v) * expl(std::max(0.0, (h.r[size_t(u)] + h.r[size_t(v)] - h.R) / 2)); };
    for (int u = 0; u < h.n; ++u) for (int v = u + 1; v < h.n; ++v) {
        const bool e = E.count({u, v}) > 0; const long double x = gap(u, v), k = q(u, v), m = slack(u, v);
        if (x < lower * k - m) { ++in; if (!e) c.fail(cat("pair ", edgeText({u, v}), " is not an HRG edge although its mapped positions are ", double(x), " apart, less than w_u w_v e^{-R/2}/(2 pi) = ", double(lower * k))); }
        if (x > upper * k + m) { ++out; if (e) c.fail(cat("pair ", edgeText({u, v}), " is an HRG edge although its mapped positions are ", double(x), " apart, more than w_u w_v e^{-R/2}/2 = ", double(upper * k))); }
    }
    // the same as edge sets of the GIRG generator: scaling all weights by s scales the reach s*w_u*w_v/W
    for (int side = 0; side < 2; ++side) {
        const long double scale = (side ? upper : lower) * W * unit;
        Vec sw(n); double minimum = INF; long double sum = 0;
        for (size_t i = 0; i < n; ++i) { sw[i] = double(w[i] * scale); minimum = std::min(minimum, sw[i]); sum += sw[i]; }
        if (std::log2(double(sum)) - 2 * std::log2(minimum) > 21) { c.label("no GIRG (tree too deep)"); continue; }
        for (size_t i = 0; i < n; ++i) if (std::fabs(girgs::girgWeightToRadius(sw[i], h.R, double(scale)) - h.r[i]) > 1e-12 * (1 + h.R)) c.fail(cat("scaled weight ", sw[i], " is mapped to radius ", girgs::girgWeightToRadius(sw[i], h.R, double(scale)), ", expected ", h.r[i]));
        auto g = canonical(girg(cfg).edges(sw, p, INF, seed), h.n, c, "threshold GIRG");
        std::set<std::pair<int, int>> G(g.begin(), g.end());
        if (side == 0) { for (auto& e : g) if (!E.count(e) && gap(e.first, e.second) < lower * q(e.first, e.second) - slack(e.first, e.second)) c.fail(cat("edge ", edgeText(e), " of the smaller GIRG is missing in the HRG")); }
        else for (auto& e : edges) if (!G.count(e) && gap(e.first, e.second) < upper * q(e.first, e.second) - slack(e.first, e.second)) c.fail(cat("edge ", edgeText(e), " of the HRG is missing in the larger GIRG"));
        c.label(side ? "larger GIRG" : "smaller GIRG");
    }
    c.count("inside", double(in)); c.count("outside", double(out)); c.nontrivial(in > 0 && out > 0);
}

} // namespace

pbt::Property pbt::define() {
    return {"C07",
        "mapping: a disc radius, two radii (random, 0, R, next to R), two angles (random, dyadic, next to 0 and 2pi), a scaling; formulas, round trips and monotonicity. sandwich: a threshold HRG instance is generated by the library, its coordinates are mapped, and every pair is compared with the two GIRG threshold relations of reach w_u w_v e^{-R/2}/(2pi) and w_u w_v e^{-R/2}/2, which the exact formula of the angle at distance R implies; both are also generated as GIRGs with scaled weights. Non-trivial: two different points; pairs closer than the smaller and farther than the larger reach exist.",
        {"round trips up to 1e-14 relative to R and the scaling", "pairs within a relative 1e-9 of a bound are not judged", "GIRGs are generated where the tree has at most 21 levels"},
        {{"mapping", 3000000, 30000000, mapping}, {"sandwich", 40000, 800000, sandwich}}, [] { girg("dbg"); girg("rel"); hrg("dbg"); hrg("rel"); }};
}
