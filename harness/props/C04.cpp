// STATIC hrg dbg
// EXEFLAGS -fopenmp
#include <hypergirgs/AngleHelper.h>
#include "gen.h"
using namespace vp;
using A = hypergirgs::AngleHelper;

namespace {

constexpr double TWO_PI = 2 * PI;
constexpr unsigned DEEPEST = 29; // its children still have cell numbers the library can count

void numbering(unsigned cell, unsigned level, Case& c) {
    const unsigned first = A::firstCellOfLevel(level), count = A::numCellsInLevel(level), local = cell - first;
    const auto b = A::bounds(cell, level);
    const long double width = 2 * 3.14159265358979323846264338327950288L / count;
    if (std::fabs(b.first - double(local * width)) > 4e-15 || std::fabs(b.second - double((local + 1) * width)) > 4e-15 || !(b.first < b.second) || (local == 0 && b.first != 0)) c.fail(cat("level ", level, ": cell ", cell, " has bounds [", b.first, ",", b.second, "), expected [", double(local * width), ",", double((local + 1) * width), ")"));
    if (local + 1 < count && A::bounds(cell + 1, level).first != b.second) c.fail(cat("level ", level, ": gap or overlap between cells ", cell, " and ", cell + 1));
    const double mid = double((local + 0.5L) * width);
    if (A::cellForPoint(mid, level) != local) c.fail(cat("level ", level, ": angle ", mid, " in the middle of cell number ", local, " is assigned to number ", A::cellForPoint(mid, level)));
    if (level > 0) {
        const unsigned p = A::parent(cell);
        if (p != A::firstCellOfLevel(level - 1) + local / 2) c.fail(cat("level ", level, ": parent(", cell, ") = ", p));
        if (A::firstChild(p) != cell && A::secondChild(p) != cell) c.fail(cat("level ", level, ": cell ", cell, " is not a child of its parent"));
        const auto pb = A::bounds(p, level - 1);
        if (pb.first > b.first || pb.second < b.second) c.fail(cat("level ", level, ": bounds of cell ", cell, " exceed those of its parent"));
    }
    const unsigned u = A::firstChild(cell), v = A::secondChild(cell);
    if (v != u + 1 || u != A::firstCellOfLevel(level + 1) + 2 * local || A::parent(u) != cell || A::parent(v) != cell || A::numChildren() != 2) c.fail(cat("level ", level, ": cell ", cell, " has children ", u, " and ", v));
}
void pair(unsigned a, unsigned b, unsigned level, Case& c) {
    const long long count = 1ll << level; long long diff = a > b ? (long long)a - b : (long long)b - a; diff = std::min(diff, count - diff);
    const long long between = diff <= 1 ? 0 : diff - 1;
    const double exact = double(between * 2 * 3.14159265358979323846264338327950288L / count);
    if (A::touching(a, b, level) != (diff <= 1)) c.fail(cat("level ", level, ": touching(", a, ",", b, ") = ", diff > 1, " but the cells are ", diff, " apart"));
    if (A::cellsBetween(a, b, level) != between) c.fail(cat("level ", level, ": cellsBetween(", a, ",", b, ") = ", A::cellsBetween(a, b, level), ", expected ", between));
    const double got = A::dist(a, b, level);
    if (std::fabs(got - exact) > exact * 1e-15 || (between == 0 && got != 0)) c.fail(cat("level ", level, ": dist(", a, ",", b, ") = ", got, ", expected ", exact));
}
void shallow(Source& s, Case& c) {
    const unsigned level = unsigned(s.range(0, c.thorough ? 11 : 10)); c.describe(cat("level ", level, ", all cells and pairs")); c.label(cat("level=", level)); c.nontrivial(level > 0);
    const unsigned first = A::firstCellOfLevel(level), count = A::numCellsInLevel(level);
    unsigned long long before = 0; for (unsigned l = 0; l < level; ++l) before += A::numCellsInLevel(l);
    if (count != 1u << level || first != before) c.fail(cat("level ", level, " has ", count, " cells starting at ", first));
    for (unsigned i = 0; i < count; ++i) numbering(first + i, level, c);
    if (std::fabs(A::bounds(first + count - 1, level).second - TWO_PI) > 4e-15) c.fail(cat("level ", level, ": the last cell ends at ", A::bounds(first + count - 1, level).second));
    for (unsigned i = 0; i < count; ++i) for (unsigned j = 0; j < count; ++j) pair(first + i, first + j, level, c);
    c.count("cell pairs", double(count) * count);
}
void sampled(Source& s, Case& c) {
    double x;
    switch (s.weighted({4, 3, 1, 1})) {
        case 0: x = s.unit() * TWO_PI; break;
        case 1: { const int l = int(s.range(0, 30)); x = std::ldexp(double(s.raw(1ull << l)), -l) * TWO_PI; const auto m = s.raw(4); if (m == 1) x = std::nextafter(x, 9.0); if (m == 2) x = x > 0 ? std::nextafter(x, 0.0) : std::nextafter(TWO_PI, 0.0); break; }
        case 2: x = std::nextafter(TWO_PI, 0.0); break;
        default: x = std::ldexp(s.unit(), -int(s.range(1, 60))); break;
    }
    if (!(x < TWO_PI)) x = std::nextafter(TWO_PI, 0.0);
    const unsigned level = unsigned(s.range(0, DEEPEST)); const long long count = 1ll << level;
    const long long d1 = s.chance(1, 3) ? (long long)s.raw(1ull << 31) : s.range(0, 8) - 4, turn = (long long)s.raw(1ull << 31);
    c.describe(cat("angle ", x, " level ", level, " offset ", d1)); c.label(cat("level=", level)); c.nontrivial(level > 0);
    unsigned prev = 0;
    for (unsigned l = 0; l <= 30; ++l) {
        const unsigned local = A::cellForPoint(x, l);
        if (local >= A::numCellsInLevel(l)) c.fail(cat("level ", l, ": angle ", x, " is assigned to cell number ", local, " of ", A::numCellsInLevel(l)));
        const unsigned cell = local + A::firstCellOfLevel(l); const auto b = A::bounds(cell, l);
        if (x < b.first - 4e-15 || x >= b.second + 4e-15) c.fail(cat("level ", l, ": angle ", x, " is outside of its cell's bounds [", b.first, ",", b.second, ")"));
        if (l > 0 && A::parent(cell) != prev) c.fail(cat("level ", l, ": the cell ", cell, " of angle ", x, " is not a child of its cell ", prev, " on the level above"));
        prev = cell;
    }
    const unsigned first = A::firstCellOfLevel(level), a = A::cellForPoint(x, level);
    auto wrap = [&](long long v) { return unsigned((v % count + count) % count); };
    const unsigned b = wrap((long long)a + d1);
    numbering(first + a, level, c); numbering(first + b, level, c);
    pair(first + a, first + b, level, c); pair(first + b, first + a, level, c);
    const unsigned ra = wrap(a + turn), rb = wrap(b + turn); // the same pair rotated
    pair(first + ra, first + rb, level, c);
    if (A::dist(first + a, first + b, level) != A::dist(first + ra, first + rb, level)) c.fail(cat("level ", level, ": dist is not invariant under rotation"));
    if (A::dist(first + a, first + b, level) != A::dist(first + b, first + a, level)) c.fail(cat("level ", level, ": dist is not symmetric"));
}

} // namespace

pbt::Property pbt::define() {
    return {"C04",
        "shallow: a level up to 10 (thorough 11), all cells and all pairs. sampled: an angle (random, cell borders of any level, next to borders, next to 0 and 2pi) followed through levels 0..30, and a pair of cells, also swapped and rotated, on one level up to 29. The reference computes with integers and long double. Non-trivial: level above 0.",
        {"bounds are compared up to 4e-15, they are multiples of a rounded 2pi/2^level"},
        {{"shallow", 150, 2000, shallow}, {"sampled", 3000000, 8000000, sampled}}, nullptr};
}
