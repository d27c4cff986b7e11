// Model-based test of one copy of IntSort.h (macro INTSORT_HEADER); the model is std::stable_sort.
#pragma once
#include INTSORT_HEADER
#include <cstdint>
#include "gen.h"

namespace vp {

template <typename K> struct Item { K key; uint32_t id; };
template <typename K> struct Big { double pad[5]; K key; uint32_t id; };
/// can be moved but not copied; a lost element shows as an empty pointer
template <typename K> struct Owner {
    std::unique_ptr<K> p; uint32_t id = 0;
};
struct KeyOf {
    template <typename K> K operator()(const Item<K>& x) const { return x.key; }
    template <typename K> K operator()(const Big<K>& x) const { return x.key; }
    template <typename K> K operator()(const Owner<K>& x) const { return *x.p; }
    uint8_t operator()(uint8_t x) const { return x; }
    uint16_t operator()(uint16_t x) const { return x; }
    uint32_t operator()(uint32_t x) const { return x; }
    uint64_t operator()(uint64_t x) const { return x; }
};
template <typename T> struct Make;
template <typename K> struct Make<Item<K>> { static Item<K> make(K k, uint32_t i) { return {k, i}; } static K key(const Item<K>& x) { return x.key; } static uint32_t id(const Item<K>& x) { return x.id; } };
template <typename K> struct Make<Big<K>> { static Big<K> make(K k, uint32_t i) { return {{double(i), 1, 2, 3, 4}, k, i}; } static K key(const Big<K>& x) { return x.key; } static uint32_t id(const Big<K>& x) { return x.pad[0] == double(x.id) && x.pad[4] == 4 ? x.id : ~0u; } };
template <typename K> struct Make<Owner<K>> { static Owner<K> make(K k, uint32_t i) { Owner<K> r; r.p.reset(new K(k)); r.id = i; return r; } static K key(const Owner<K>& x) { if (!x.p) throw pbt::Failure("an element was lost, it is only a moved-from shell"); return *x.p; } static uint32_t id(const Owner<K>& x) { return x.id; } };
template <typename K> struct Plain { static K make(K k, uint32_t) { return k; } static K key(K x) { return x; } static uint32_t id(K) { return 0; } };
template <> struct Make<uint8_t> : Plain<uint8_t> {};
template <> struct Make<uint16_t> : Plain<uint16_t> {};
template <> struct Make<uint32_t> : Plain<uint32_t> {};
template <> struct Make<uint64_t> : Plain<uint64_t> {};

struct SortCase { std::vector<uint64_t> keys; uint64_t maxKey; int threads; std::string text; };

inline SortCase genSort(Source& s, Case& c, unsigned keyBits, bool large) {
    SortCase r;
    const bool small = !large && s.chance(3, 5);
    size_t n = small ? size_t(s.range(0, 40)) : large ? size_t(s.pick({131072, 131073, 262144, 262145, 400000, 655361, 1048577})) : size_t(s.logRange(20, 6000));
    if (large && s.chance(1, 3)) n = size_t(s.range(100000, 700000));
    r.threads = int(s.range(1, 16));
    const unsigned bits = unsigned(s.range(0, keyBits));
    const uint64_t top = bits >= 64 ? ~0ull : (1ull << bits) - 1, limit = keyBits >= 64 ? ~0ull : (1ull << keyBits) - 1;
    Rng bulk = small ? Rng(0) : s.bulk();
    auto below = [&](uint64_t k) { return small ? s.raw(k) : bulk.below(k); };
    uint64_t mx = top;
    switch (s.weighted({3, 3, 2, 2})) { case 0: break; case 1: mx = std::min(limit, top + (top < limit)); break; case 2: mx = top ? top - 1 : 0; break; default: mx = top ? (top >> 1) + s.raw((top >> 1) + 1) : 0; break; }
    const auto upto = [&](uint64_t m) { return m == ~0ull ? (small ? s.raw(~0ull) : bulk.next()) : below(m + 1); };
    const int kind = int(s.raw(7)); static const char* names[] = {"uniform", "few values", "equal", "largest", "low bits", "high bits", "sorted"};
    const uint64_t few = 1 + s.raw(4), one = upto(mx);
    r.keys.resize(n);
    std::vector<uint64_t> vals; for (uint64_t i = 0; i < few; ++i) vals.push_back(upto(mx));
    for (size_t i = 0; i < n; ++i) switch (kind) {
        case 0: case 6: r.keys[i] = upto(mx); break;
        case 1: r.keys[i] = vals[below(few)]; break;
        case 2: r.keys[i] = one; break;
        case 3: r.keys[i] = mx - std::min(mx, below(3)); break;
        case 4: r.keys[i] = below(std::min<uint64_t>(mx, 20) + 1); break;
        default: r.keys[i] = mx - (upto(mx) & (mx >> 4)) ; break;
    }
    if (kind == 6) { std::sort(r.keys.begin(), r.keys.end()); if (s.chance(1, 2)) std::reverse(r.keys.begin(), r.keys.end()); }
    uint64_t used = 0; for (auto k : r.keys) used = std::max(used, k);
    const bool exact = s.chance(1, 2); // the maximum key is given exactly or with room
    r.maxKey = exact ? used : mx;
    c.label(cat("keys:", names[kind])); c.label(r.maxKey && !(r.maxKey & (r.maxKey - 1)) ? "max power of two" : "max other"); if (n >= 131073) c.label("several threads");
    r.text = cat("n=", n, " max key=", r.maxKey, " keys:", names[kind], " threads=", r.threads);
    if (n <= 12) { r.text += " ["; for (auto k : r.keys) r.text += cat(" ", k); r.text += " ]"; }
    c.nontrivial(n > 1 && used > 0);
    c.count("elements", double(n));
    return r;
}

template <typename T, typename K> void compare(Case& c, const T* got, const SortCase& r, size_t n) {
    std::vector<std::pair<uint64_t, uint32_t>> want(n), have(n);
    for (size_t i = 0; i < n; ++i) { want[i] = {r.keys[i], Make<T>::id(Make<T>::make(K(r.keys[i]), uint32_t(i)))}; have[i] = {uint64_t(Make<T>::key(got[i])), Make<T>::id(got[i])}; }
    for (size_t i = 1; i < n; ++i) if (have[i].first < have[i - 1].first) c.fail(cat("not sorted: key ", have[i - 1].first, " before ", have[i].first, " at position ", i));
    std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end());
    for (size_t i = 0; i < n; ++i) if (want[i] != have[i]) c.fail(cat("not a permutation of the input: element (key ", want[i].first, ", id ", want[i].second, ") was replaced by (key ", have[i].first, ", id ", have[i].second, ")"));
}

template <typename T, typename K, size_t RADIX> void sortVector(Case& c, const SortCase& r) {
    std::vector<T> v; for (size_t i = 0; i < r.keys.size(); ++i) v.push_back(Make<T>::make(K(r.keys[i]), uint32_t(i)));
    intsort::intsort<T, KeyOf, K, RADIX>(v, KeyOf{}, K(r.maxKey));
    if (v.size() != r.keys.size()) c.fail(cat("the vector has ", v.size(), " elements afterwards"));
    compare<T, K>(c, v.data(), r, v.size());
}
template <typename T, typename K, size_t RADIX> void sortRange(Case& c, const SortCase& r, size_t before, size_t after) {
    std::vector<T> v; const size_t n = r.keys.size();
    auto guard = [&](size_t i) { return Make<T>::make(K(r.maxKey), uint32_t(1000000 + i)); };
    for (size_t i = 0; i < before; ++i) v.push_back(guard(i));
    for (size_t i = 0; i < n; ++i) v.push_back(Make<T>::make(K(r.keys[i]), uint32_t(i)));
    for (size_t i = 0; i < after; ++i) v.push_back(guard(before + i));
    intsort::intsort<typename std::vector<T>::iterator, KeyOf, K, RADIX>(v.begin() + long(before), v.begin() + long(before + n), KeyOf{}, K(r.maxKey));
    for (size_t i = 0; i < before + after; ++i) { const size_t at = i < before ? i : i + n; if (Make<T>::id(v[at]) != Make<T>::id(guard(i)) || Make<T>::key(v[at]) != K(r.maxKey)) c.fail(cat("element ", at, " outside of the range was changed")); }
    compare<T, K>(c, v.data() + before, r, n);
}
template <typename T, typename K, size_t RADIX, typename P> void sortOwned(Case& c, const SortCase& r, size_t after) {
    const size_t n = r.keys.size();
    P p(new T[n + after + 1]); (void)after;
    for (size_t i = 0; i < n; ++i) p.get()[i] = Make<T>::make(K(r.keys[i]), uint32_t(i));
    intsort::intsort<T, KeyOf, K, RADIX>(p, n, KeyOf{}, K(r.maxKey));
    compare<T, K>(c, p.get(), r, n);
}

template <typename K, size_t RADIX> void forms(Source& s, Case& c, unsigned bits, bool large) {
    auto r = genSort(s, c, bits, large);
    const int form = int(s.raw(6)); const size_t before = size_t(s.range(0, 3)), after = size_t(s.range(0, 3));
    static const char* names[] = {"vector", "range", "range of large elements", "shared_ptr", "unique_ptr", "vector of move-only"};
    c.describe(cat(r.text, " key type of ", sizeof(K) * 8, std::is_signed<K>::value ? " signed" : "", " bits, radix width ", RADIX, ", ", names[form])); c.label(names[form]); c.label(cat(RADIX, "-bit digits"));
    omp_set_num_threads(r.threads);
    switch (form) {
        case 0: sortVector<Item<K>, K, RADIX>(c, r); break;
        case 1: sortRange<Item<K>, K, RADIX>(c, r, before, after); break;
        case 2: sortRange<Big<K>, K, RADIX>(c, r, before, after); break;
        case 3: sortOwned<Item<K>, K, RADIX, std::shared_ptr<Item<K>[]>>(c, r, after); break;
        case 4: sortOwned<Big<K>, K, RADIX, std::unique_ptr<Big<K>[]>>(c, r, after); break;
        default: sortVector<Owner<K>, K, RADIX>(c, r); break;
    }
}
template <typename K> void plain(Source& s, Case& c) { // the elements are their own keys
    auto r = genSort(s, c, sizeof(K) * 8, false);
    c.describe(cat(r.text, " plain integers of ", sizeof(K) * 8, " bits")); c.label("plain integers");
    omp_set_num_threads(r.threads);
    if (s.chance(1, 2)) sortVector<K, K, 8>(c, r); else sortRange<K, K, 8>(c, r, 2, 2);
}

inline void anySort(Source& s, Case& c, bool large) {
    switch (s.weighted({3, 3, 2, 2, 2, 2, 1, 1, 1, large ? 0u : 3u})) {
        case 0: forms<int, 8>(s, c, 31, large); break;
        case 1: forms<uint32_t, 8>(s, c, 32, large); break;
        case 2: forms<uint64_t, 8>(s, c, 64, large); break;
        case 3: forms<uint16_t, 7>(s, c, 16, large); break;
        case 4: forms<uint32_t, 1>(s, c, 20, large); break;
        case 5: forms<uint64_t, 11>(s, c, 64, large); break;
        case 6: forms<uint8_t, 3>(s, c, 8, large); break;
        case 7: forms<int64_t, 5>(s, c, 63, large); break;
        case 8: forms<uint32_t, 12>(s, c, 32, large); break;
        default: switch (s.raw(4)) { case 0: plain<uint8_t>(s, c); break; case 1: plain<uint16_t>(s, c); break; case 2: plain<uint32_t>(s, c); break; default: plain<uint64_t>(s, c); } break;
    }
}

} // namespace vp
