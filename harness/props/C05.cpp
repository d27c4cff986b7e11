#include "gen.h"
#include <cassert>
#include <hypergirgs/Point.h>
#include <hypergirgs/DistanceFilter.h>
using namespace vp;

namespace {

struct Pair { double R, r1, p1, r2, p2; };

Pair genPair(Source& s, Case& c) {
    Pair x;
    switch (s.weighted({3, 2, 1})) { case 0: x.R = s.real(1, 25); break; case 1: x.R = double(s.range(1, 25)); break; default: x.R = s.real(0.05, 2); break; }
    const double below = std::nextafter(x.R, 0.0), below2pi = std::nextafter(2 * PI, 0.0);
    auto radius = [&] {
        double r;
        switch (s.weighted({4, 2, 1, 1, 1, 1})) { case 0: r = s.unit() * x.R; break; case 1: r = x.R - std::ldexp(s.unit(), -int(s.range(0, 20))); break; case 2: r = below; break; case 3: r = x.R / 2; break;
            case 4: r = std::ldexp(s.unit(), -int(s.range(1, 25))); break; default: r = 2.2e-8; break; }
        return std::min(std::max(r, 2.2e-8), below);
    };
    auto norm = [&](double a) { a -= std::floor(a / (2 * PI)) * 2 * PI; return a >= 0 && a < 2 * PI ? a : a < 0 ? 0 : below2pi; };
    x.r1 = radius(); x.r2 = s.chance(1, 5) ? x.r1 : radius(); x.p1 = s.chance(1, 5) ? norm(std::ldexp(double(s.raw(64)), -6) * 2 * PI) : s.unit() * 2 * PI;
    if (!(x.p1 < 2 * PI)) x.p1 = below2pi;
    switch (s.weighted({3, 4, 1, 1, 1})) {
        case 0: x.p2 = s.unit() * 2 * PI; if (!(x.p2 < 2 * PI)) x.p2 = below2pi; c.label("random angle"); break;
        case 1: { // distance close to R
            const long double k = (coshl((long double)x.R) - coshl((long double)x.r1 - x.r2)) / (2 * sinhl((long double)x.r1) * sinhl((long double)x.r2));
            const long double a = k >= 1 ? PI : k <= 0 ? 0 : 2 * asinl(sqrtl(k));
            const double rel = std::ldexp(s.unit(), -int(s.range(1, 45))) * (s.chance(1, 2) ? 1 : -1);
            x.p2 = norm(double(x.p1 + (s.chance(1, 2) ? 1 : -1) * a * (1 + rel))); c.label("distance next to R"); break; }
        case 2: x.p2 = x.p1; c.label("same angle"); break;
        case 3: x.p2 = norm(x.p1 + std::ldexp(s.unit(), -int(s.range(5, 50)))); c.label("almost same angle"); break;
        default: x.p2 = norm(x.p1 + PI); c.label("opposite"); break;
    }
    c.describe(cat("R=", x.R, " r1=", x.r1, " phi1=", x.p1, " r2=", x.r2, " phi2=", x.p2));
    return x;
}

void points(Source& s, Case& c) {
    const auto x = genPair(s, c);
    const long double sp = sinhl((long double)x.r1) * sinhl((long double)x.r2), cp = coshl((long double)x.r1) * coshl((long double)x.r2), half = sinl(((long double)x.p1 - x.p2) / 2);
    const long double v = coshl((long double)x.r1 - x.r2) + 2 * half * half * sp, cR = coshl((long double)x.R);
    const hypergirgs::Point a(3, x.r1, x.p1), b(7, x.r2, x.p2, 11);
    const double coshR = std::cosh(x.R);
    const long double err = 3e-15L * (cp + sp), margin = err + 3e-15L * (1 + x.R) * cR;
    for (int k = 0; k < 2; ++k) {
        const auto &u = k ? b : a, &w = k ? a : b; const char* order = k ? " (second to first)" : "";
        const bool below = u.isDistanceBelowR(w, coshR);
        if (v < cR - margin && !below) c.fail(cat("isDistanceBelowR", order, " is false although the distance is ", double(acoshl(v))));
        if (v > cR + margin && below) c.fail(cat("isDistanceBelowR", order, " is true although the distance is ", double(acoshl(v))));
        const double got = u.hyperbolicDistanceCosh(w);
        if (!(got >= 1) || fabsl(got - v) > err + 1e-14L * v) c.fail(cat("hyperbolicDistanceCosh", order, " = ", got, ", expected ", double(v)));
        const double lo = double(acoshl(std::max(1.0L, v - err - 1e-14L * v)) * (1 - 1e-14L)), hi = double(acoshl(v + err + 1e-14L * v) * (1 + 1e-14L));
        const double d = u.hyperbolicDistance(w);
        if (!(d >= lo && d <= hi)) c.fail(cat("Point::hyperbolicDistance", order, " = ", d, ", expected between ", lo, " and ", hi));
        const double f = k ? hypergirgs::hyperbolicDistance(x.r2, x.p2, x.r1, x.p1) : hypergirgs::hyperbolicDistance(x.r1, x.p1, x.r2, x.p2);
        if (!(f >= lo && f <= hi)) c.fail(cat("hyperbolicDistance", order, " = ", f, ", expected between ", lo, " and ", hi));
    }
    if (a.id != 3 || b.id != 7 || b.cell_id != 11 || a == b || !(a != b) || !(a == a)) c.fail("ids of points are lost or compared wrongly");
    c.label(v < cR - margin ? "below R" : v > cR + margin ? "above R" : "undecided");
    c.nontrivial(fabsl(v - cR) > margin);
}

template <size_t N> void filter(Source& s, Case& c) {
    const double R = s.chance(1, 4) ? s.real(0.1, 2) : s.real(1, 25), T = genT(s);
    double max;
    switch (s.weighted({2, 3, 2, 1, 1})) { case 0: max = 1; break; case 1: max = s.real(0.01, 1); break; case 2: max = std::exp2(-s.real(0, 60)); break; case 3: max = std::nextafter(1.0, 0.0); break; default: max = 1 / (1 + std::exp(-R / (2 * T))); break; }
    if (!(max > 0 && max <= 1)) max = 1;
    const hypergirgs::DistanceFilter<N> f(max, R, T);
    c.label(cat("stages=", N)); c.label(max == 1 ? "max_prob=1" : "max_prob<1");
    std::string t = cat("stages=", N, " max_prob=", max, " R=", R, " T=", T, " probabilities:");
    auto C = [&](long double p) { // cosh of the distance with connection probability p
        if (p >= 1) return 1.0L;
        const long double d = R + 2 * (long double)T * logl(1 / p - 1);
        return d <= 0 ? 1.0L : coshl(d);
    };
    int inner = 0;
    for (int i = 0; i < 40; ++i) {
        double p;
        switch (s.weighted({3, 3, 1, 1, 1})) {
            case 0: p = s.unit() * max; break;
            case 1: p = max / N * double(s.raw(N)); if (s.chance(1, 3)) p = std::nextafter(p, 2.0); else if (p > 0 && s.chance(1, 2)) p = std::nextafter(p, 0.0); break;
            case 2: p = std::nextafter(max, 0.0); break;
            case 3: p = max * std::exp2(-s.real(0, 200)); break;
            default: p = 0; break;
        }
        if (!(p < max)) p = std::nextafter(max, 0.0);
        if (i < 5) { t += " " + pbt::str(p); c.describe(t); }
        const double up = f.coshDistForProb_upperBound(p), lo = f.coshDistForProb_lowerBound(p);
        // a pair above the upper bound: its probability, at most max_prob, must not exceed p
        if (!(up >= 1) && !(up == INF)) c.fail(cat("upper bound for probability ", p, " is ", up));
        if (up != INF) {
            const long double need = C(p * (1 + 1e-11L));
            if (p == 0 || std::max((long double)up, C(max)) * (1 + 1e-11L) < need) c.fail(cat("pairs with cosh(dist) just above the upper bound ", up, " have a connection probability above ", p, ", the bound must be at least ", p == 0 ? INF : double(need)));
        }
        if (!(lo >= 1)) c.fail(cat("lower bound for probability ", p, " is ", lo));
        if (p > 0 && lo > 1) {
            const long double most = C(p * (1 - 1e-11L));
            if (lo == INF ? std::isfinite(double(most)) : lo > most * (1 + 1e-11L)) c.fail(cat("pairs with cosh(dist) just below the lower bound ", lo, " have a connection probability below ", p, ", the bound must be at most ", double(most)));
            ++inner;
        }
    }
    c.nontrivial(inner > 0);
}
void filters(Source& s, Case& c) { switch (s.raw(4)) { case 0: case 1: return filter<100>(s, c); case 2: return filter<10>(s, c); default: return filter<1>(s, c); } }

} // namespace

pbt::Property pbt::define() {
    return {"C05",
        "points: a disc radius and two points (random, next to centre and border, equal radius, equal, opposite and almost equal angles, distance next to R down to the last bits); all distance functions are compared with long double formulas in both argument orders. filters: a filter of 1, 10 or 100 stages, its maximal probability (1, next to 1, tiny, random, that of distance 0) and 40 queries (random, stage borders and their neighbours, next to the maximum, tiny, 0). Non-trivial: the distance is decidably below or above R; a lower bound is above 1.",
        {"errors up to 3e-15 (cosh r1 cosh r2 + sinh r1 sinh r2) are rounding", "probabilities in the filter are compared with a relative slack of 1e-11", "queries p >= 0; pairs a filter is asked about have at most its maximal probability"},
        {{"points", 2000000, 60000000, points}, {"filters", 100000, 3000000, filters}}, nullptr};
}
