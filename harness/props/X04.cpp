// STATIC girg cov
// STATIC hrg cov
// LINKFLAGS -fopenmp
#include "gen.h"
#include <atomic>
#include <cstdlib>
#include <new>
#include <unistd.h>
using namespace vp;

// The libraries are compiled with -fsanitize-coverage=trace-pc: this function is called by every basic block.
namespace {
struct alignas(128) Slot { unsigned long blocks, bytes; };
Slot g_slots[512]; unsigned long g_limit = ~0ul; std::atomic<unsigned> g_used{0}; // g_limit: far beyond what a case may take, no need to wait for the end
thread_local Slot* t_slot = nullptr;
inline Slot& slot() { if (!t_slot) t_slot = &g_slots[std::min(g_used.fetch_add(1), 511u)]; return *t_slot; }
__attribute__((noinline)) void tooMuch() { fprintf(stderr, "more than %lu basic blocks are executed, 4 times what linear growth allows", g_limit); fflush(stderr); _exit(77); }
}
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc() { if (++slot().blocks > g_limit) tooMuch(); }
void* operator new(size_t n) { slot().bytes += n; if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace {

struct Work { double blocks = 0, bytes = 0, size = 0; };
template <typename F> Work measure(F&& f) {
    auto sum = [] { Work w; for (auto& s : g_slots) { w.blocks += double(s.blocks); w.bytes += double(s.bytes); } return w; };
    const auto a = sum(); const double size = f(); const auto b = sum();
    return {b.blocks - a.blocks, b.bytes - a.bytes, size};
}
double median3(double a, double b, double c) { return std::max(std::min(a, b), std::min(std::max(a, b), c)); }

/// median growth of the work per unit over three pairs of a small and a large instance
void compare(Case& c, const std::string& what, double bound, const Work& tiny, const std::function<std::pair<Work, Work>(int)>& pair) {
    const double memBound = 4; // vectors grow by doubling
    double g[3], m[3]; Work last;
    for (int i = 0; i < 3; ++i) {
        auto p = pair(i); last = p.second;
        g[i] = p.second.blocks / p.second.size / (p.first.blocks / p.first.size);
        m[i] = (p.second.bytes - tiny.bytes) / p.second.size / std::max(8.0, (p.first.bytes - tiny.bytes) / p.first.size); // without buffers of fixed size
        if (i == 0 && g[0] < 0.7 * bound && m[0] < 0.7 * memBound) { g[1] = g[2] = g[0]; m[1] = m[2] = m[0]; break; } // far from the bound: one pair is enough
    }
    const double growth = median3(g[0], g[1], g[2]), mem = median3(m[0], m[1], m[2]);
    c.note(cat("growth ", growth, ", of memory ", mem)); c.count("growth", growth); c.count("growth of memory", mem); c.count("basic blocks", last.blocks);
    if (FILE* o = getenv("VP_SHOW") ? fopen(getenv("VP_SHOW"), "a") : nullptr) fprintf(o, "%s  | %g %g | %s blocks %g per unit %g bytes per unit %g\n", c.m_description.c_str(), growth, mem, what.c_str(), last.blocks, last.blocks / last.size, last.bytes / last.size), fclose(o);
    if (growth > bound) c.fail(cat(what, ": the work per vertex and edge grows ", growth, " times"));
    if (mem > memBound) c.fail(cat(what, ": the memory per vertex and edge grows ", mem, " times"));
    c.nontrivial();
}

void limit(const Work& small, double bound, int factor) { for (auto& s : g_slots) s.blocks = 0; g_limit = static_cast<unsigned long>(4 * bound * 2 * factor * small.blocks); }

double minOf(const Vec& w) { return *std::min_element(w.begin(), w.end()); }
double sumOf(const Vec& w) { return std::accumulate(w.begin(), w.end(), 0.0); }

void girgEdges(Source& s, Case& c) {
    const auto& api = girg("");
    const int d = int(s.weighted({4, 4, 3, 2, 1})) + 1; const bool thr = s.chance(1, 3) || d == 5;
    const double alpha = thr ? INF : s.chance(1, 3) ? s.pick({2.0, 1.2, 1.5, 3.0, 5.0}) : d >= 3 ? s.real(1.5, 6) : s.real(1.2, 6), ple = s.real(d == 5 && !c.thorough ? 2.7 : 2.2, 3.0), deg = s.real(4, d >= 3 ? 8 : 16);
    const int threads = s.chance(2, 3) ? 1 : int(s.range(2, 8));
    // vertex numbers differ by a power of 2^d: the tree gets deeper by whole levels and cells are filled alike
    int factor = d <= 2 ? 256 : d == 3 ? 64 : d == 4 ? 16 : 32, n0 = d <= 3 ? int(s.range(800, 1600)) : d == 4 ? int(s.range(1500, 2500)) : int(s.range(1500, 2000));
    if (c.thorough) { if (d <= 2) factor *= 4; if (d >= 4) n0 *= 2; }
    const int n1 = n0 * factor, seed = genSeed(s) / 2;
    c.describe(cat("GIRG n=", n0, " and ", n1, " d=", d, " ple=", ple, " alpha=", alpha, " degree=", deg, " threads=", threads, " seed=", seed));
    c.label(cat("d=", d)); c.label(thr ? "threshold" : "probabilistic");
    double last = 0;
    api.setThreads(threads); const auto tiny = measure([&] { return 2.0 + double(api.edges({1, 1}, {std::vector<double>(size_t(d), 0.1), std::vector<double>(size_t(d), 0.2)}, alpha, seed).size()); });
    compare(c, "edge generation", d == 5 ? 8 : 2.5, tiny, [&](int i) { // most pairs of the small instances are compared if d = 5
        api.setThreads(1);
        auto w0 = api.weights(n0, ple, seed + 10 * i, false), w1 = api.weights(n1, ple, seed + 10 * i + 1, false); double f;
        const auto e = api.scale(w0, deg, d, alpha, &f); if (!e.empty()) c.fail("scaling failed: " + e);
        const double scale = sumOf(w1) / std::pow(minOf(w1), 2) / (sumOf(w0) / std::pow(minOf(w0), 2) * factor); for (auto& x : w1) x *= scale;
        api.setThreads(threads);
        auto run = [&](const Vec& w, int sd) { auto p = api.positions(int(w.size()), d, sd, false); return measure([&] { const auto m = api.edges(w, p, alpha, sd).size(); last = 2.0 * double(m) / double(w.size()); return double(w.size() + m); }); };
        g_limit = ~0ul; auto a = run(w0, seed + 10 * i + 2); limit(a, d == 5 ? 8 : 2.5, factor); auto b = run(w1, seed + 10 * i + 3); c.count("degree of the large graphs", last);
        return std::make_pair(a, b);
    });
}
void hrgEdges(Source& s, Case& c) {
    const auto& api = hrg("");
    const double alpha = s.chance(1, 2) ? s.pick({0.75, 1.0, 0.6}) : s.real(0.55, 1), T = s.chance(1, 3) ? 0 : s.real(0, 0.9), deg = s.real(4, 20); const int threads = s.chance(2, 3) ? 1 : int(s.range(2, 8));
    const int factor = c.thorough ? 1024 : 256, n0 = int(s.range(800, 2000)), n1 = factor * n0, seed = genSeed(s) / 2;
    c.describe(cat("HRG n=", n0, " and ", n1, " alpha=", alpha, " T=", T, " degree=", deg, " threads=", threads, " seed=", seed)); c.label(T == 0 ? "threshold" : "probabilistic");
    api.setThreads(threads); Vec two{1, 1}; const auto tiny = measure([&] { return 2.0 + double(api.edges(two, two, T, 2, seed).size()); });
    compare(c, "edge generation", 2, tiny, [&](int i) {
        auto run = [&](int n, int sd) { api.setThreads(1); const double R = api.radius(n, alpha, T, deg); auto x = api.both(n, alpha, R, sd, false); api.setThreads(threads); return measure([&] { return double(size_t(n) + api.edges(x.first, x.second, T, R, sd).size()); }); };
        g_limit = ~0ul; auto a = run(n0, seed + 10 * i); limit(a, 2, factor); auto b = run(n1, seed + 10 * i + 1); return std::make_pair(a, b);
    });
}
/// everything before edge generation: linear up to a logarithm
void preparation(Source& s, Case& c) {
    const int what = int(s.raw(5)), threads = int(s.range(1, 8)), seed = genSeed(s) / 2, n0 = int(s.range(1000, 4000)), factor = c.thorough ? 512 : 128, d = int(s.range(1, 5));
    const double ple = s.real(2.2, 3), alpha = s.chance(1, 3) ? INF : s.real(1.2, 6), deg = s.real(4, 20);
    static const char* names[] = {"weights", "positions", "radii and angles", "scaling", "scaling"};
    c.describe(cat(names[what], " n=", n0, " and ", n0 * factor, " d=", d, " ple=", ple, " alpha=", alpha, " degree=", deg, " threads=", threads, " seed=", seed)); c.label(names[what]);
    const auto& g = girg(""); const auto& h = hrg("");
    compare(c, names[what], what >= 3 ? 3 : 1.5, Work(), [&](int i) {
        auto run = [&](int n, int sd) {
            g.setThreads(threads); h.setThreads(threads); Vec w; if (what >= 3) w = g.weights(n, ple, sd, false);
            return measure([&] {
                switch (what) { case 0: g.weights(n, ple, sd, true); break; case 1: g.positions(n, d, sd, true); break; case 2: h.both(n, 0.75, 20, sd, true); break; default: { double f; g.scale(w, deg, d, alpha, &f); } }
                return double(n);
            });
        };
        auto a = run(n0, seed + 10 * i); auto b = run(n0 * factor, seed + 10 * i + 1); return std::make_pair(a, b);
    });
}

} // namespace

pbt::Property pbt::define() {
    std::vector<Sub> subs;
    auto add = [&](const char* n, int q, int t, PropFn f) { Sub x{n, q, t, f}; x.hang_s = 600; x.hang_is_violation = false; x.hang_idle_s = 120; subs.push_back(x); };
    add("girg-edges", 200, 3000, girgEdges); add("hrg-edges", 200, 3000, hrgEdges); add("preparation", 600, 6000, preparation);
    return {"X04",
        "A case is a pair of instances whose vertex numbers differ by a factor of 16 to 1024: GIRGs with power-law weights (exponent 2.2 to 3) scaled to a degree, alpha in [1.2,infinity], d = 1 to 5, HRGs with alpha in [0.55,1] and T in [0,0.9], 1 to 8 threads, or the generation of weights, positions, radii, angles and the scaling. The libraries are compiled so that every executed basic block is counted, allocated bytes are counted too. Both per vertex and edge (per vertex before edge generation) must not grow by more than a constant (2.5 for GIRGs, 8 if d = 5, 2 for HRGs, 3 for scaling, 1.5 for sampling; 4 for memory), in the median of three pairs; quadratic work grows by the factor of the vertex numbers. Non-trivial: every case that was measured.",
        {"counts of basic blocks, not time", "the large weights are scaled so that W/w_min^2 grows with the vertex number, by a power of 2^d: fill of cells is the same in both instances", "d = 4 and d = 5 are measured up to about 60000 vertices, d = 5 for the threshold model only"},
        subs, nullptr};
}
