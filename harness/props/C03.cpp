#include <cstdint>
#include "gen.h"
#include <girgs/SpatialTreeCoordinateHelper.h>
using namespace vp;

namespace {

constexpr unsigned MAXLEVEL[] = {0, 30, 15, 10, 7, 6}; // cells of all levels up to here have 32-bit numbers, also those of the next level

// coordinates of a cell as its bounds tell them, in units of the cell diameter
template <unsigned D> std::array<long long, D> coordsOf(unsigned cell, unsigned level, Case& c) {
    using H = girgs::SpatialTreeCoordinateHelper<D>;
    const auto b = H::bounds(cell, level);
    const double side = std::ldexp(1.0, int(level));
    std::array<long long, D> x;
    for (unsigned k = 0; k < D; ++k) {
        const double lo = b[k].first * side, hi = b[k].second * side;
        if (lo != std::floor(lo) || hi != lo + 1 || lo < 0 || hi > side) c.fail(cat("d=", D, " level ", level, ": cell ", cell, " has bounds [", b[k].first, ",", b[k].second, ") in coordinate ", k, ", not those of a cell of this level"));
        x[k] = (long long)lo;
    }
    return x;
}
template <unsigned D> std::array<double, D> center(const std::array<long long, D>& x, unsigned level) { std::array<double, D> p; for (unsigned k = 0; k < D; ++k) p[k] = std::ldexp(double(x[k]) + 0.5, -int(level)); return p; }

template <unsigned D> void numbering(unsigned cell, unsigned level, Case& c) {
    using H = girgs::SpatialTreeCoordinateHelper<D>;
    const unsigned first = H::firstCellOfLevel(level), count = H::numCellsInLevel(level);
    if (H::cellOfLevel(cell) != cell - first) c.fail(cat("d=", D, " level ", level, ": cellOfLevel(", cell, ") = ", H::cellOfLevel(cell), ", expected ", cell - first));
    if (cell < first || cell - first >= count) c.fail("harness");
    const auto x = coordsOf<D>(cell, level, c);
    // the bounds are those of the points that are assigned to the cell
    const unsigned home = H::cellForPoint(center<D>(x, level), level);
    if (home != cell - first) c.fail(cat("d=", D, " level ", level, ": the center of cell ", cell, " is assigned to cell ", home + first));
    if (level > 0) {
        const unsigned p = H::parent(cell);
        if (p < H::firstCellOfLevel(level - 1) || p >= first) c.fail(cat("d=", D, ": parent(", cell, ") = ", p, " is not on level ", level - 1));
        if (cell < H::firstChild(p) || cell > H::lastChild(p)) c.fail(cat("d=", D, ": cell ", cell, " is not among the children ", H::firstChild(p), "..", H::lastChild(p), " of its parent ", p));
        const auto y = coordsOf<D>(p, level - 1, c);
        for (unsigned k = 0; k < D; ++k) if (x[k] / 2 != y[k]) c.fail(cat("d=", D, " level ", level, ": cell ", cell, " does not lie within its parent ", p, " (coordinate ", k, ": ", x[k], " of half the size of ", y[k], ")"));
    }
    if (level < MAXLEVEL[D]) {
        const unsigned a = H::firstChild(cell), b = H::lastChild(cell), next = H::firstCellOfLevel(level + 1);
        if (b - a + 1 != H::numChildren() || H::numChildren() != (1u << D)) c.fail(cat("d=", D, ": cell ", cell, " has children ", a, "..", b));
        if (a < next || b - next >= H::numCellsInLevel(level + 1)) c.fail(cat("d=", D, ": children ", a, "..", b, " of cell ", cell, " are not on level ", level + 1));
        uint32_t seen = 0;
        for (unsigned k = a; k <= b; ++k) {
            if (H::parent(k) != cell) c.fail(cat("d=", D, ": parent(", k, ") = ", H::parent(k), " although it is a child of ", cell));
            const auto y = coordsOf<D>(k, level + 1, c); unsigned which = 0;
            for (unsigned q = 0; q < D; ++q) { if (y[q] / 2 != x[q]) c.fail(cat("d=", D, " level ", level, ": child ", k, " lies outside of cell ", cell)); which |= unsigned(y[q] & 1) << q; }
            seen |= 1u << which;
        }
        if (seen != uint32_t((1ull << (1u << D)) - 1)) c.fail(cat("d=", D, " level ", level, ": the children of cell ", cell, " overlap"));
    }
}

template <unsigned D> void pair(unsigned A, unsigned B, const std::array<long long, D>& x, const std::array<long long, D>& y, unsigned level, Case& c) {
    using H = girgs::SpatialTreeCoordinateHelper<D>;
    const long long side = 1ll << level; long long gap = 0;
    for (unsigned k = 0; k < D; ++k) { long long a = x[k] > y[k] ? x[k] - y[k] : y[k] - x[k]; a = std::min(a, side - a); gap = std::max(gap, a); }
    const bool touch = gap <= 1; const double dist = gap <= 1 ? 0.0 : std::ldexp(double(gap - 1), -int(level));
    if (H::touching(A, B, level) != touch) c.fail(cat("d=", D, " level ", level, ": touching(", A, ",", B, ") = ", !touch, " but the cells are ", gap, " apart"));
    const double got = H::dist(A, B, level);
    if (got != dist) c.fail(cat("d=", D, " level ", level, ": dist(", A, ",", B, ") = ", got, " expected ", dist));
}

template <unsigned D> void exhaustive(unsigned level, Case& c) {
    using H = girgs::SpatialTreeCoordinateHelper<D>;
    const unsigned first = H::firstCellOfLevel(level), count = H::numCellsInLevel(level);
    unsigned long long sum = 0; for (unsigned l = 0; l < level; ++l) sum += H::numCellsInLevel(l);
    if (sum != first) c.fail(cat("d=", D, ": level ", level, " starts at ", first, " but there are ", sum, " cells before"));
    if (count != 1ull << (D * level)) c.fail(cat("d=", D, ": level ", level, " has ", count, " cells"));
    std::vector<std::array<long long, D>> xs;
    std::set<std::array<long long, D>> distinct;
    for (unsigned i = 0; i < count; ++i) { numbering<D>(first + i, level, c); xs.push_back(coordsOf<D>(first + i, level, c)); distinct.insert(xs.back()); }
    if (distinct.size() != count) c.fail(cat("d=", D, " level ", level, ": the cells do not tile the torus, two have the same bounds"));
    for (unsigned i = 0; i < count; ++i) for (unsigned j = 0; j < count; ++j) pair<D>(first + i, first + j, xs[i], xs[j], level, c);
    c.count("cell pairs", double(count) * count); c.count("cells", count);
}
const unsigned FULL[] = {0, 10, 5, 3, 2, 2};
void shallow(Source& s, Case& c) {
    const int d = int(s.range(1, 5)); const unsigned level = unsigned(s.range(0, (long long)FULL[d]));
    c.describe(cat("d=", d, " level ", level, ", all cells and pairs")); c.label(cat("d=", d)); c.label(cat("d=", d, " level=", level)); c.nontrivial(level > 0);
    switch (d) { case 1: return exhaustive<1>(level, c); case 2: return exhaustive<2>(level, c); case 3: return exhaustive<3>(level, c); case 4: return exhaustive<4>(level, c); default: return exhaustive<5>(level, c); }
}

double genCoord(Source& s) {
    const double below1 = std::nextafter(1.0, 0.0);
    switch (s.weighted({4, 3, 3, 1, 1})) {
        case 0: return s.unit();
        case 1: return std::ldexp(double(s.raw(1024)), -10);
        case 2: { double x = std::ldexp(double(s.raw(1u << 16)), -16); x = s.chance(1, 2) ? std::nextafter(x, 2.0) : x > 0 ? std::nextafter(x, 0.0) : below1; return x; }
        case 3: return below1;
        default: return std::ldexp(s.unit(), -int(s.range(1, 60)));
    }
}
template <unsigned D> void deep(Source& s, Case& c) {
    using H = girgs::SpatialTreeCoordinateHelper<D>;
    // one point followed down the tree
    std::array<double, D> p; std::string t; for (auto& x : p) { x = genCoord(s); t += " " + pbt::str(x); }
    const unsigned level = unsigned(s.range(0, (long long)MAXLEVEL[D]));
    std::array<long long, D> delta; for (auto& x : delta) x = s.chance(1, 3) ? (long long)s.raw(1ull << 31) : s.range(0, 6) - 3;
    c.describe(cat("d=", D, " level ", level, " point", t)); c.label(cat("d=", D)); c.label(cat("level=", level)); c.nontrivial(level > 0);
    unsigned prev = 0;
    for (unsigned l = 0; l <= MAXLEVEL[D]; ++l) {
        const unsigned local = H::cellForPoint(p, l);
        if (local >= H::numCellsInLevel(l)) c.fail(cat("d=", D, " level ", l, ": the point belongs to cell number ", local, " of ", H::numCellsInLevel(l)));
        const unsigned cell = local + H::firstCellOfLevel(l);
        const auto b = H::bounds(cell, l);
        for (unsigned k = 0; k < D; ++k) if (!(b[k].first <= p[k] && p[k] < b[k].second)) c.fail(cat("d=", D, " level ", l, ": coordinate ", k, " = ", p[k], " is outside the bounds [", b[k].first, ",", b[k].second, ") of the point's cell"));
        if (l > 0 && H::parent(cell) != prev) c.fail(cat("d=", D, " level ", l, ": the point's cell ", cell, " is not a child of its cell ", prev, " on the level above"));
        prev = cell;
    }
    const unsigned A = H::cellForPoint(p, level) + H::firstCellOfLevel(level);
    numbering<D>(A, level, c);
    const auto x = coordsOf<D>(A, level, c); auto y = x; const long long side = 1ll << level;
    for (unsigned k = 0; k < D; ++k) y[k] = ((x[k] + delta[k]) % side + side) % side;
    const unsigned B = H::cellForPoint(center<D>(y, level), level) + H::firstCellOfLevel(level);
    numbering<D>(B, level, c);
    if (coordsOf<D>(B, level, c) != y) c.fail(cat("d=", D, " level ", level, ": bounds of cell ", B, " do not contain the point it was found by"));
    pair<D>(A, B, x, y, level, c); pair<D>(B, A, y, x, level, c);
}
void sampled(Source& s, Case& c) { switch (s.range(1, 5)) { case 1: return deep<1>(s, c); case 2: return deep<2>(s, c); case 3: return deep<3>(s, c); case 4: return deep<4>(s, c); default: return deep<5>(s, c); } }

} // namespace

pbt::Property pbt::define() {
    return {"C03",
        "shallow: a dimension and a level (level 10, 5, 3, 2, 2 in dimensions 1..5 at most), all cells and all pairs of cells of it are checked. sampled: a point (random, cell corners, next to corners, next to 0 and 1), followed through all levels whose numbers fit 32 bits, and a second cell near or far on one level. The reference decodes a cell from its bounds and computes with integers; distances must agree exactly. Non-trivial: level above 0.",
        {"levels up to 30, 15, 10, 7, 6 in dimensions 1..5, deeper ones have cell numbers beyond 32 bits"},
        {{"shallow", 400, 4000, shallow}, {"sampled", 2000000, 10000000, sampled}}, nullptr};
}
