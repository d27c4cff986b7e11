// PLUGIN girg rel dbg
#include "gen.h"
using namespace vp;

namespace {

void scaling(Source& s, Case& c) {
    const int n = int(s.logRange(2, 3000)), d = int(s.range(1, 5)), threads = genThreads(s, 8);
    Vec w(static_cast<size_t>(n)); Rng bulk = s.bulk();
    const int kind = int(s.raw(3));
    for (auto& x : w) x = kind == 0 ? 1 + double(bulk.below(3)) : kind == 1 ? std::pow(1 - bulk.unit(), -1 / 1.5) : std::exp2(10 * bulk.unit() - 5);
    for (auto& x : w) x = std::min(x, 1e5);
    const double deg = s.chance(1, 3) ? s.real(0.01, 0.99) * (n - 1) : std::min(0.9 * (n - 1), s.real(0.5, 30.0));
    double alpha; bool bad = true;
    switch (s.weighted({2, 2, 2, 2, 2, 5, 3, 2})) {
        case 0: alpha = 1; break;
        case 1: alpha = s.chance(1, 2) ? 0.0 : -0.0; break;
        case 2: alpha = -std::exp2(s.real(-60, 60)); break;
        case 3: alpha = s.pick({-INF, -1.0, -0.5, -2.0, -8.0, -9.0, -5e-324, -1e308, -10.0}); break;
        case 4: alpha = s.chance(1, 2) ? std::nan("") : -std::nan(""); break;
        case 5: alpha = s.real(1.0001, 8.0); bad = false; break;
        case 6: alpha = s.pick({INF, 8.0, std::nextafter(8.0, 9.0), 20.0, 1e6, 1e308, 1.001, 0.999}); bad = false; break;
        default: alpha = s.real(0.1, 0.9999); bad = false; break;
    }
    const bool dbg = s.chance(1, 2);
    c.describe(cat("n=", n, " d=", d, " degree=", deg, " alpha=", alpha, " threads=", threads, dbg ? " dbg" : ""));
    c.label(bad ? std::isnan(alpha) ? "not a number" : alpha == 1 ? "one" : alpha == 0 ? "zero" : "negative" : "valid");
    const auto& api = girg(dbg ? "dbg" : "rel");
    api.setThreads(threads);
    auto v = w; double factor = -1;
    const auto err = api.scale(v, deg, d, alpha, &factor);
    if (bad) {
        if (err.empty()) c.fail(cat("alpha = ", alpha, " is accepted, returned factor ", factor));
        if (v.size() != w.size() || std::memcmp(v.data(), w.data(), w.size() * sizeof(double))) c.fail(cat("the weights were modified although alpha = ", alpha, " is rejected"));
    } else {
        if (!err.empty()) c.fail(cat("alpha = ", alpha, " is rejected: ", err));
        if (!(factor > 0) || std::isinf(factor)) c.fail(cat("the factor is ", factor));
        if (v.size() != w.size()) c.fail(cat("the number of weights changed from ", w.size(), " to ", v.size()));
        for (size_t i = 0; i < w.size(); ++i) if (!(std::fabs(v[i] - w[i] * factor) <= 1e-14 * v[i])) c.fail(cat("weight ", i, " was ", w[i], " and is ", v[i], ", the factor is ", factor));
    }
    c.nontrivial();
}

} // namespace

pbt::Property pbt::define() {
    return {"G09",
        "A case is a weight vector, a degree, a dimension, a thread count and an alpha: 1, +-0, negative (down to -infinity and denormal), not a number, or valid (including 8, the next double, infinity, huge, close to 1). Invalid: an exception and bitwise unmodified weights; valid: a positive finite factor that every weight was multiplied by, in order. Every case is non-trivial.",
        {"valid alpha at least 0.1 and |alpha-1| >= 1e-4", "attainable degrees"}, {{"scaling", 400000, 6000000, scaling}}, [] { girg("rel"); girg("dbg"); }};
}
