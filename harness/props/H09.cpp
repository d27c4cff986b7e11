// PLUGIN hrg rel dbg o0
#include "gen.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"rel", "dbg", "o0"};

/// expected average degree of NetworKit's hyperbolic generator at temperature 0 (Krioukov et al., equation 13)
long double expectedDegree(long double n, long double alpha, long double R) {
    const long double pi = acosl(-1.0L), xi = 2 * alpha / (2 * alpha - 1); // (gamma-1)/(gamma-2)
    return 2 / pi * xi * xi * n * (expl(-R / 2) + expl(-alpha * R) * (alpha * (R / 2) * (pi / 4 / alpha / alpha - (pi - 1) / alpha + (pi - 2)) - 1));
}

double genAlphaH(Source& s) {
    switch (s.weighted({3, 3, 2, 1})) { case 0: return s.pick({1.0, 0.75, 0.55, 0.9, 0.6}); case 1: return 1 - s.real(0, 0.49); case 2: return s.real(1.0, 4.0); default: return 0.5 + std::exp2(-double(s.range(2, 10))); }
}

void cold(Source& s, Case& c) {
    const int n = int(s.logRange(2, 2000000000));
    const double alpha = genAlphaH(s);
    // largest possible degree, over a grid
    long double top = 0; for (int i = 0; i <= 4000; ++i) top = std::max(top, expectedDegree(n, alpha, i * 0.01L));
    double deg = 1;
    switch (s.weighted({4, 3, 2})) {
        case 0: deg = s.real(1, 100); break;
        case 1: deg = double(top) * s.real(0.001, 0.99); break;
        default: deg = double(top) * (1 - std::exp2(-double(s.range(4, 12)))); break;
    }
    if (!(deg >= 0.5) || deg > double(top) * 0.9998) c.skip();
    const int cfg = int(s.raw(3));
    c.describe(cat("n=", n, " alpha=", alpha, " degree=", deg, " (at most ", double(top), " possible) build=", CONFIG[cfg]));
    if (deg > 0.5 * double(top)) c.label("close to the largest degree");
    const double R = hrg(CONFIG[cfg]).radiusNkr(n, alpha, 0, deg);
    if (!(R >= 0) || std::isinf(R)) c.fail(cat("no radius found: ", R));
    const long double got = expectedDegree(n, alpha, R);
    const long double xi = 2 * (long double)alpha / (2 * (long double)alpha - 1);
    const long double slack = 0.01L * (1 + 1e-9L) + 1e-14L * got + 4e-16L * n * xi * xi * (1 + R);
    if (!(fabsl(got - deg) <= slack)) c.fail(cat("radius ", R, " has expected degree ", double(got), ", desired ", deg));
    c.nontrivial(deg > 0.02 * double(top) || n > 100);
}

void warm(Source& s, Case& c) {
    const int n = int(s.logRange(1, 2147483647));
    const double alpha = genAlphaH(s), deg = s.chance(1, 2) ? std::exp2(s.real(-4, 20)) : double(s.range(1, 100));
    const double T = s.chance(1, 4) ? s.pick({1e-9, 1e-3, 0.5, 0.999, std::nextafter(1.0, 0.0)}) : genT(s);
    const int cfg = int(s.raw(3));
    c.describe(cat("n=", n, " alpha=", alpha, " T=", T, " degree=", deg, " build=", CONFIG[cfg]));
    const double R = hrg(CONFIG[cfg]).radiusNkr(n, alpha, T, deg);
    const long double pi = acosl(-1.0L), t = T, xiInv = (2 * (long double)alpha - 1) / (2 * (long double)alpha);
    const long double si = T > 0.75 ? sinl(pi * (1 - t)) : sinl(pi * t);
    const long double want = 2 * logl(n / (deg * (si / (pi * t)) * (pi / 2) * xiInv * xiInv));
    const long double slack = 1e-12L * (1 + fabsl(want)) + 8e-15L / (1 - t) + 4e-15L / xiInv;
    if (!(fabsl(R - want) <= slack)) c.fail(cat("the radius is ", R, ", expected ", double(want)));
    c.nontrivial(n > 1);
}

} // namespace

pbt::Property pbt::define() {
    return {"H09",
        "A case is n up to 2e9, alpha in (0.5,4], T, a degree and a build. T = 0: the radius is put into the expected-degree equation in long double and must give the degree within 0.01 (plus rounding); degrees range up to 99.97 percent of the largest value the equation takes. 0 < T < 1: comparison with the closed form. A search that does not return counts as a violation.",
        {"alpha >= 0.5 + 2^-10", "T = 0: degrees from 0.5"},
        {{"cold", 200000, 3000000, cold, 1, 30}, {"warm", 2000000, 30000000, warm}}, [] { for (auto x : CONFIG) hrg(x); }};
}
