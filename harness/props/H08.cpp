// PLUGIN hrg rel dbg o0
#include "gen.h"
using namespace vp;

namespace {

const char* CONFIG[] = {"rel", "dbg", "o0"};

void formula(Source& s, Case& c) {
    const int n = int(s.logRange(1, 2147483647));
    double alpha = 1, T = 0;
    switch (s.weighted({3, 3, 1})) { case 0: alpha = s.pick({1.0, 0.75, 0.55, 0.9, 0.6}); break; case 1: alpha = 1 - s.real(0, 0.499); break; default: alpha = 0.5 + std::exp2(-double(s.range(2, 20))); }
    switch (s.weighted({3, 4, 2})) { case 0: T = 0; break; case 1: T = genT(s); break; default: T = s.pick({1e-300, 1e-9, 1e-3, 0.5, 0.999, std::nextafter(1.0, 0.0)}); }
    const double deg = s.chance(1, 2) ? std::exp2(s.real(-4, 20)) : double(s.range(1, 100));
    const int cfg = int(s.raw(3));
    c.describe(cat("n=", n, " alpha=", alpha, " T=", T, " degree=", deg, " build=", CONFIG[cfg]));
    c.label(T == 0 ? "T=0" : "T>0");
    const auto& api = hrg(CONFIG[cfg]);
    const double R = api.radius(n, alpha, T, deg);
    const long double pi = acosl(-1.0L), a = alpha - 0.5L;
    const long double c0 = T == 0 ? 1 / pi : T > 0.75 ? (long double)T / sinl(pi * (1 - (long double)T)) : (long double)T / sinl(pi * T);
    const long double want = 2 * logl(2 * (long double)n * alpha * alpha * c0 / (deg * a * a));
    // sin(pi T) close to T = 1 inherits the rounding of pi T
    const long double slack = 1e-12L * (1 + fabsl(want)) + 2 * 1e-15L / (1 - (long double)T);
    if (!(fabsl(R - want) <= slack)) c.fail(cat("the radius is ", R, ", expected ", double(want)));
    c.nontrivial(n > 1);
}

void sampled(Source& s, Case& c) {
    const double alpha = s.real(0.75, 1.0), T = s.chance(1, 3) ? 0.0 : s.real(0.02, 0.65), deg = s.real(4.0, 25.0);
    const int n = int(s.range(c.thorough ? 30000 : 15000, c.thorough ? 100000 : 40000)), runs = 5;
    const auto& api = hrg("rel");
    api.setThreads(1);
    const int seed = genSeed(s) / 2;
    c.describe(cat("n=", n, " alpha=", alpha, " T=", T, " degree=", deg, " seed=", seed));
    c.label(T == 0 ? "T=0" : "T>0");
    const double R = api.radius(n, alpha, T, deg);
    std::vector<double> x;
    for (int r = 0; r < runs; ++r) {
        auto p = api.both(n, alpha, R, seed + r, false);
        x.push_back(2.0 * double(api.edges(p.first, p.second, T, R, seed + r).size()) / n);
    }
    std::sort(x.begin(), x.end()); // the median is hardly influenced by single hubs
    const double got = x[size_t(runs / 2)];
    c.count("graphs", runs); c.count("relative error", std::fabs(got / deg - 1));
    // error term of the asymptotics: pairs of which one is close to the centre, about n^-(2 alpha - 1), and connected pairs that are far apart
    const double tol = 0.1 + 6 * std::exp(-(alpha - 0.5) * R) + (T > 0 ? 4 * std::exp(-(1 / T - 1) * R / 2) : 0);
    if (getenv("VP_SHOW")) printf("%g %g %g %d -> %g rel %g tol %g\n", alpha, T, deg, n, got, got / deg - 1, tol);
    if (std::fabs(got / deg - 1) > tol) c.fail(cat("average degree of sampled graphs is ", got, ", desired ", deg, " (tolerance ", tol, ")"));
    c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"H08",
        "A case is n, alpha in (0.5,1], T in [0,1), a degree and a build; the radius is compared with the closed form in long double (T down to 1e-300 and up to the last double below 1, alpha down to 0.5+2^-20). The second sub-check samples radii, angles and edges at that radius and compares the median average degree of 5 graphs with the desired one. Non-trivial: n > 1.",
        {"sampled degrees: alpha >= 0.75, T <= 0.65, n >= 15000, tolerance 10 percent plus 6 exp(-(alpha-1/2)R) + 4 exp(-(1/T-1)R/2), the order of the error terms"},
        {{"formula", 2000000, 30000000, formula}, {"sampled", 200, 1500, sampled}}, [] { for (auto x : CONFIG) hrg(x); }};
}
