// EXEFLAGS -DUSE_BMI2 -mbmi2
#include <string>
#include <girgs/BitManipulation.h>
#include "gen.h"
using namespace vp;

namespace {

// the definition: bit i of coordinate k is bit i*D+k of the code
template <unsigned D> uint32_t refDeposit(const std::array<uint32_t, D>& x) {
    uint32_t r = 0;
    for (unsigned i = 0; i < 32 / D; ++i) for (unsigned k = 0; k < D; ++k) if ((x[k] >> i) & 1) r |= 1u << (i * D + k);
    return r;
}
template <unsigned D> std::array<uint32_t, D> refExtract(uint32_t c) {
    std::array<uint32_t, D> r; r.fill(0);
    for (unsigned b = 0; b < 32; ++b) if ((c >> b) & 1) r[b % D] |= 1u << (b / D);
    return r;
}
template <unsigned D> std::string text(const std::array<uint32_t, D>& x) { std::string s = "("; for (unsigned k = 0; k < D; ++k) s += cat(k ? "," : "", x[k]); return s + ")"; }

template <unsigned D, template <unsigned> class I> void one(const char* name, const std::array<uint32_t, D>& x, uint32_t code, Case& c) {
    const auto want = refDeposit<D>(x), got = I<D>::deposit(x);
    if (got != want) c.fail(cat(name, " d=", D, ": deposit", text<D>(x), " = ", got, ", expected ", want));
    const auto back = I<D>::extract(got);
    if (back != x) c.fail(cat(name, " d=", D, ": extract(deposit", text<D>(x), ") = ", text<D>(back)));
    const auto e = I<D>::extract(code), we = refExtract<D>(code);
    if (e != we) c.fail(cat(name, " d=", D, ": extract(", code, ") = ", text<D>(e), ", expected ", text<D>(we)));
    if (D <= 4 || uint64_t(code) < (1ull << (D * (32 / D)))) { // up to d=4 every code is that of a tuple the interleaving accepts
        const auto again = I<D>::deposit(e);
        if (again != code) c.fail(cat(name, " d=", D, ": deposit(extract(", code, ")) = ", again));
    }
}

namespace det = girgs::BitManipulationDetails;
template <unsigned D> using Gen = det::Generic::Implementation<D>;
template <unsigned D> using Bmi = det::BMI2::Implementation<D>;

template <unsigned D> void both(const std::array<uint32_t, D>& x, uint32_t code, Case& c) {
    one<D, Gen>("portable", x, code, c);
    if (D <= 5) one<D, Bmi>("BMI2", x, code, c);
}

uint32_t genWord(Source& s, unsigned bits) {
    const uint32_t max = uint32_t((1ull << bits) - 1);
    switch (s.weighted({3, 2, 2, 2, 2, 1})) {
        case 0: return uint32_t(s.raw(uint64_t(max) + 1));
        case 1: return uint32_t(s.raw(std::min<uint64_t>(16, uint64_t(max) + 1)));
        case 2: return 1u << s.raw(bits);
        case 3: return max >> s.raw(bits);
        case 4: return max & ~(1u << s.raw(bits));
        default: return max;
    }
}
template <unsigned D> void sampled(Source& s, Case& c) {
    std::array<uint32_t, D> x; bool any = false; int used = 0;
    for (auto& v : x) { v = s.chance(3, 4) ? genWord(s, 32 / D) : 0; any = any || v > 1; used += v != 0; }
    const uint32_t code = genWord(s, 32);
    c.describe(cat("d=", D, " coordinates ", text<D>(x), " code ", code)); c.label(cat("d=", D)); if (used == int(D)) c.label("all coordinates used");
    both<D>(x, code, c);
    c.nontrivial(any || code > 1);
}
void sampledAny(Source& s, Case& c) {
    switch (s.raw(8)) { case 0: return sampled<1>(s, c); case 1: return sampled<2>(s, c); case 2: return sampled<3>(s, c); case 3: return sampled<4>(s, c); case 4: return sampled<5>(s, c);
        case 5: return sampled<6>(s, c); case 6: return sampled<7>(s, c); default: return sampled<8>(s, c); }
}
// blocks of consecutive codes: together they cover every code below 2^22 in the quick tier many times over
template <unsigned D> void block(uint32_t first, uint32_t count, Case& c) {
    const uint32_t complete = uint32_t((1ull << (D * (32 / D))) - 1);
    for (uint32_t i = 0; i < count; ++i) { const uint32_t code = first + i; both<D>(refExtract<D>(code & complete), code, c); }
}
void blocks(Source& s, Case& c) {
    const int d = int(s.range(1, 8)); const uint32_t count = 1 << 16;
    const uint32_t b = uint32_t(s.chance(1, 2) ? s.raw(64) : s.raw(65536)), first = b << 16;
    c.describe(cat("d=", d, " codes ", first, "..", uint64_t(first) + count - 1)); c.label(cat("d=", d)); c.count("codes", count); c.nontrivial();
    switch (d) { case 1: return block<1>(first, count, c); case 2: return block<2>(first, count, c); case 3: return block<3>(first, count, c); case 4: return block<4>(first, count, c); case 5: return block<5>(first, count, c);
        case 6: return block<6>(first, count, c); case 7: return block<7>(first, count, c); default: return block<8>(first, count, c); }
}

} // namespace

pbt::Property pbt::define() {
    return {"C06",
        "A case is a dimension, a coordinate tuple (random, small, single bits, all ones, one bit missing, unused coordinates) and a 32-bit code, or a block of 65536 consecutive codes; both implementations are compared with a bit-by-bit reference and both round trips are checked. Non-trivial: a coordinate or the code exceeds 1.",
        {"coordinates have at most floor(32/d) bits, as in the repository's own tests; in dimension 3 also the eleventh bit of the first two coordinates, which the implementation accepts", "the BMI2 implementation is executed on this machine's processor"},
        {{"tuples", 3000000, 20000000, sampledAny}, {"blocks", 2500, 60000, blocks}}, nullptr};
}
