// Generation under any runtime set-up returns the right graph; shared by H11.cpp and H11_limit.cpp.
#pragma once
#include <dlfcn.h>
#include <thread>
#include "gen.h"

namespace vp {

inline void ompCall(const char* name, int value) {
    static void* lib = dlopen("libgomp.so.1", RTLD_NOW | RTLD_GLOBAL);
    if (auto f = lib ? reinterpret_cast<void (*)(int)>(dlsym(lib, name)) : nullptr) f(value);
}

struct Setup { int threads = 1, outer = 0, inner = 1; bool dynamic = false, nested = false, fresh = false; std::string text; };

inline Setup genSetup(Source& s, Case& c, bool limited) {
    Setup u;
    u.threads = int(s.weighted({4, 4, 1}) == 0 ? s.range(1, 8) : s.weighted({3, 1}) == 0 ? s.range(9, 33) : s.range(34, 64));
    u.dynamic = s.chance(1, 4);
    if (s.chance(1, 3)) { u.outer = int(s.range(1, 6)); u.nested = s.chance(1, 2); u.inner = int(s.range(1, 8)); }
    u.fresh = s.chance(1, 6);
    u.text = cat("threads=", u.threads, u.dynamic ? " dynamic" : "", u.outer ? cat(" inside a parallel region of ", u.outer, u.nested ? " (nested teams allowed)" : "", " asking for ", u.inner, " each") : std::string(), u.fresh ? " from a new thread" : "", limited ? " with OMP_THREAD_LIMIT" : "");
    c.label(u.outer ? u.nested ? "nested teams" : "inside parallel" : u.threads > 8 ? "threads>8" : "threads<=8"); if (u.dynamic) c.label("dynamic"); if (u.fresh) c.label("new thread");
    return u;
}

/// runs work() under the set-up, once per thread of the outer region
template <typename Api> void under(const Setup& u, const Api& api, const std::function<Edges()>& work, std::vector<Edges>& out) {
    auto all = [&] {
        ompCall("omp_set_dynamic", u.dynamic); ompCall("omp_set_max_active_levels", u.nested ? 3 : 1);
        api.setThreads(u.threads);
        if (!u.outer) { out.assign(1, work()); return; }
        out.assign(size_t(u.outer), Edges{}); std::vector<char> ran(size_t(u.outer), 0);
        api.insideParallel(u.outer, [&](int t) { if (t < 0 || t >= u.outer) return; ompCall("omp_set_dynamic", u.dynamic); api.setThreads(u.inner); out[size_t(t)] = work(); ran[size_t(t)] = 1; });
        for (size_t t = ran.size(); t-- > 0;) if (!ran[t]) out.erase(out.begin() + long(t)); // the runtime may provide fewer threads
    };
    if (u.fresh) { std::thread t(all); t.join(); } else all();
    ompCall("omp_set_dynamic", 0); ompCall("omp_set_max_active_levels", 1);
}

static const char* TERM_CONFIG[] = {"dbg", "rel"};

inline void girgTerminates(Source& s, Case& c, bool limited) {
    GirgOpts o; o.maxSmall = 12; o.maxN = s.chance(1, 10) ? 3000 : 150; o.smallShare = 55;
    auto g = genGirg(s, o); auto u = genSetup(s, c, limited);
    const bool threshold = s.chance(1, 2) || g.n > 300; const double alpha = threshold ? INF : genAlpha(s);
    const int cfg = int(s.raw(2)), seed = s.chance(1, 8) ? -1 : genSeed(s), kind = int(s.raw(2)); auto& api = girg(TERM_CONFIG[cfg]);
    c.describe(cat(g.text(), " alpha=", alpha, " seed=", seed, " ", u.text, " build=", TERM_CONFIG[cfg])); c.label(threshold ? "threshold" : "finite alpha"); if (g.n <= 3) c.label("n<=3");
    std::vector<Edges> res;
    under(u, api, [&] {
        if (kind == 0) return api.edges(g.w, g.p, alpha, seed);
        Edges e; std::mutex m; api.tree(g.w, g.p, alpha, false, {seed}, [&](size_t, int a, int b, int) { std::lock_guard<std::mutex> l(m); e.emplace_back(a, b); }); return e;
    }, res);
    if (res.empty()) c.fail("no thread of the parallel region returned");
    for (auto& r : res) {
        auto got = canonical(std::move(r), g.n, c, "GIRG"); size_t i = 0;
        for (int a = 0; a < g.n; ++a) for (int b = a + 1; b < g.n; ++b) {
            const bool has = i < got.size() && got[i] == std::make_pair(a, b); if (has) ++i;
            const int want = girgThreshold(g, a, b);
            if (want == 1 && !has) c.fail(cat("pair ", edgeText({a, b}), " has probability 1 but is missing"));
            if (want == 0 && has && threshold) c.fail(cat("pair ", edgeText({a, b}), " is connected beyond the threshold"));
        }
        c.count("edges", double(got.size()));
    }
    c.count("graphs", double(res.size())); c.nontrivial(u.threads > 1 || u.outer || g.n <= 3);
}

inline void hrgTerminates(Source& s, Case& c, bool limited) {
    HrgOpts o; o.maxSmall = 12; o.maxN = s.chance(1, 10) ? 3000 : 150; o.smallShare = 55;
    auto h = genHrg(s, o); auto u = genSetup(s, c, limited);
    const bool threshold = s.chance(1, 2) || h.n > 300; const double T = threshold ? 0 : genT(s);
    const int cfg = int(s.raw(2)), seed = s.chance(1, 8) ? -1 : genSeed(s), kind = int(s.raw(2)); auto& api = hrg(TERM_CONFIG[cfg]);
    c.describe(cat(h.text(), " T=", T, " seed=", seed, " ", u.text, " build=", TERM_CONFIG[cfg])); c.label(threshold ? "threshold" : "T>0"); if (h.n <= 3) c.label("n<=3");
    std::vector<Edges> res;
    under(u, api, [&] {
        if (kind == 0) { auto r = h.r, p = h.phi; return api.edges(r, p, T, h.R, seed); }
        Edges e; std::mutex m; api.tree(h.r, h.phi, T, h.R, false, {seed}, [&](size_t, int a, int b, int) { std::lock_guard<std::mutex> l(m); e.emplace_back(a, b); }); return e;
    }, res);
    if (res.empty()) c.fail("no thread of the parallel region returned");
    for (auto& r : res) {
        auto got = canonical(std::move(r), h.n, c, "HRG"); size_t i = 0;
        for (int a = 0; a < h.n && threshold; ++a) for (int b = a + 1; b < h.n; ++b) {
            const bool has = i < got.size() && got[i] == std::make_pair(a, b); if (has) ++i;
            const int want = hrgThreshold(h, a, b);
            if (want >= 0 && has != (want == 1)) c.fail(cat("pair ", edgeText({a, b}), has ? " is connected but not closer than R" : " is missing although closer than R"));
        }
        c.count("edges", double(got.size()));
    }
    c.count("graphs", double(res.size())); c.nontrivial(u.threads > 1 || u.outer || h.n <= 3);
}

/// weights, positions, radii and angles
inline void samplersTerminate(Source& s, Case& c, bool limited) {
    auto u = genSetup(s, c, limited); const int cfg = int(s.raw(2)); auto& a = girg(TERM_CONFIG[cfg]); auto& b = hrg(TERM_CONFIG[cfg]);
    const int n = int(s.chance(1, 3) ? s.pick({10000, 10001, 20000, 30001, 60000}) : s.range(1, 200)), seed = genSeed(s), what = int(s.raw(4)); const bool par = s.chance(3, 4);
    c.describe(cat(what == 0 ? "weights" : what == 1 ? "positions" : what == 2 ? "radii" : "angles", " n=", n, " seed=", seed, par ? " parallel " : " ", u.text)); c.nontrivial(u.threads > 1 || u.outer);
    std::vector<Edges> res;
    auto work = [&] {
        Vec v; double lo = 0, hi = 1;
        if (what == 0) { v = a.weights(std::max(3, n), 2.5, seed, par); lo = 1; hi = 0.5 * std::max(3, n); if (int(v.size()) == std::max(3, n)) v.resize(size_t(n), 1.0); }
        else if (what == 1) { auto p = a.positions(n, 2, seed, par); for (auto& q : p) v.push_back(q.size() == 2 ? std::max(q[0], q[1]) : -1); }
        else if (what == 2) { v = b.radii(n, 0.75, 10, seed, par); hi = 10; }
        else { v = b.angles(n, seed, par); hi = 2 * PI; }
        bool ok = int(v.size()) == n; size_t zero = 0; for (auto x : v) { ok = ok && x >= lo && x < hi; zero += x == 0; }
        return Edges{{ok && zero <= 1, 0}};
    };
    under(u, a, work, res);
    for (auto& r : res) if (r.at(0).first != 1) c.fail("values are missing or out of range");
}

} // namespace vp
