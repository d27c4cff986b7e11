// STATIC girg asan
// STATIC hrg asan
// EXEFLAGS -fopenmp -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1
// ENV ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:max_malloc_fill_size=65536
// ENV UBSAN_OPTIONS=print_stacktrace=1
// SOURCE x02/G01.cpp
// SOURCE x02/G04.cpp
// SOURCE x02/G05.cpp
// SOURCE x02/G06.cpp
// SOURCE x02/G07.cpp
// SOURCE x02/G08.cpp
// SOURCE x02/G09.cpp
// SOURCE x02/G10.cpp
// SOURCE x02/H01.cpp
// SOURCE x02/H04.cpp
// SOURCE x02/H05.cpp
// SOURCE x02/H06.cpp
// SOURCE x02/H07.cpp
// SOURCE x02/H08.cpp
// SOURCE x02/H09.cpp
// SOURCE x02/C01.cpp
// SOURCE x02/C02.cpp
// SOURCE x02/C03.cpp
// SOURCE x02/C04.cpp
// SOURCE x02/C05.cpp
// SOURCE x02/C07.cpp
#include "x02/run.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vp;

namespace {

/// the same calls again and again: memory in use must not grow with every round
void leak(Source& s, Case& c) {
    const bool girgs = s.chance(1, 2); std::function<void(int)> round; const int seed = genSeed(s) / 2; // leaves room for the round
    if (girgs) {
        GirgOpts o; o.maxN = 400; auto g = genGirg(s, o); const double alpha = s.chance(1, 3) ? INF : genAlpha(s); const int what = int(s.raw(4)); const double ple = s.real(2.1, 5), deg = std::max(0.01, 0.4 * (g.n - 1));
        c.describe(cat(g.text(), " alpha=", alpha, " call ", what));
        c.label(what == 0 ? "edge list" : what == 1 ? "generator object" : what == 2 ? "weights, positions" : "scaling");
        girg("").setThreads(g.threads);
        round = [=](int k) {
            const auto& api = girg("");
            if (what == 0) api.edges(g.w, g.p, alpha, seed + k);
            else if (what == 1) api.tree(g.w, g.p, alpha, false, {seed, seed + k}, [](size_t, int, int, int) {});
            else if (what == 2) { api.weights(g.n, ple, seed + k, true); api.positions(g.n, g.d, seed + k, true); }
            else { auto w = g.w; double f; api.scale(w, deg, g.d, alpha, &f); api.scale(w, deg, g.d, 1.0, &f); }
        };
    } else {
        HrgOpts o; o.maxN = 400; auto h = genHrg(s, o); const double T = s.chance(1, 3) ? 0 : genT(s); const int what = int(s.raw(4));
        c.describe(cat(h.text(), " T=", T, " call ", what));
        c.label(what == 0 ? "edge list" : what == 1 ? "generator object" : what == 2 ? "radii, angles" : "disc radius");
        hrg("").setThreads(h.threads);
        round = [=](int k) {
            const auto& api = hrg("");
            if (what == 0) { auto r = h.r, a = h.phi; api.edges(r, a, T, h.R, seed + k); }
            else if (what == 1) api.tree(h.r, h.phi, T, h.R, false, {seed, seed + k}, [](size_t, int, int, int) {});
            else if (what == 2) { api.radii(h.n, 0.75, h.R, seed + k, true); api.angles(h.n, seed + k, true); api.both(h.n, 0.75, h.R, seed + k, true); }
            else { api.radius(h.n + 10, 0.75, T, 4); api.radiusNkr(h.n + 10, 0.75, T, 4); }
        };
    }
    for (int k = 0; k < 3; ++k) round(k);
    // a runtime that keeps something for later does so in some rounds, a leak in all of them
    auto used = __sanitizer_get_current_allocated_bytes(); std::string growth;
    for (int k = 0; k < 6; ++k) {
        round(k); const auto now = __sanitizer_get_current_allocated_bytes();
        if (now <= used) { c.nontrivial(); return; }
        growth += cat(" ", now - used); used = now;
    }
    c.fail("every repetition of the call keeps more memory (bytes:" + growth + ")");
}

} // namespace

pbt::Property pbt::define() {
    auto s = x02::libraryCalls(1);
    using x02::add;
    add(s, define_C01(), "girgs", 2000, 60000); add(s, define_C01(), "girgs-large", 3, 60);
    add(s, define_C02(), "weight-partition", 600, 10000); add(s, define_C02(), "weight-layer", 800, 20000); add(s, define_C02(), "radius-partition", 1000, 10000);
    add(s, define_C03(), "sampled", 40000, 1000000); add(s, define_C03(), "shallow", 6, 100); add(s, define_C04(), "sampled", 40000, 1000000); add(s, define_C04(), "shallow", 4, 60);
    add(s, define_C05(), "points", 40000, 1000000); add(s, define_C05(), "filters", 3000, 100000);
    add(s, define_C07(), "mapping", 20000, 1000000); add(s, define_C07(), "sandwich", 1000, 30000);
    s.push_back({"leak", 600, 15000, leak});
    return {"X02",
        "A case is one of the cases of the properties G01, G04-G11, H01, H04-H10, C01-C07 (their valid and invalid inputs, histories, concurrent calls and files), executed with the library, the tools and the generators compiled with AddressSanitizer and UndefinedBehaviorSanitizer (also float casts and bounds), libstdc++ assertions and annotated vector capacity, both with assertions and with NDEBUG; a report is a violation, a failing oracle is not (it belongs to the other property). Leaks: the memory in use must not grow in each of six repetitions of a call. Uninitialised memory: the library is built with automatic variables initialised to zero and to a pattern, and heap memory is filled with different bytes when allocated and released; results must be the same. Non-trivial: every executed case.",
        {"what these sanitizers and fill patterns can see", "the LeakSanitizer cannot run in this sandbox, leaks are seen by growth"}, s, nullptr};
}
