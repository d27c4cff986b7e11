// Small property-based testing engine: recorded choice sequences, deterministic seeds, process isolation,
// shrinking on the choice sequence, replay files, case statistics. See ../DESIGN.md section "Engine".
#pragma once
#include <cstdint>
#include <cstddef>
#include <cmath>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

/// splitmix64 stream; used for bulk data that is a function of one recorded choice
struct Rng {
    uint64_t state;
    explicit Rng(uint64_t seed = 0) : state(mix64(seed ^ 0xD1B54A32D192ED03ull)) {}
    uint64_t next() { state += 0x9E3779B97F4A7C15ull; uint64_t z = state; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double unit() { return static_cast<double>(next() >> 11) * 0x1p-53; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

/// Every random decision of a case goes through here. Choice 0 is always the simplest one.
class Source {
public:
    explicit Source(uint64_t seed) : m_rng(seed) {}
    explicit Source(std::vector<uint64_t> replay) : m_replaying(true), m_in(std::move(replay)) {}

    uint64_t raw(uint64_t bound) { // uniform in [0,bound), bound >= 1
        uint64_t v;
        if (m_replaying) v = m_pos < m_in.size() ? m_in[m_pos] % bound : 0;
        else v = m_rng.next() % bound;
        ++m_pos;
        if (sink && m_out.size() + 1 < sinkCapacity) { sink[m_out.size() + 1] = v; sink[0] = m_out.size() + 1; }
        m_out.push_back(v);
        if (m_out.size() > (1u << 20)) throw std::length_error("too many choices");
        return v;
    }
    /// integer in [lo,hi], shrinks towards lo
    long long range(long long lo, long long hi) { return lo + static_cast<long long>(raw(static_cast<uint64_t>(hi - lo) + 1)); }
    /// integer in [lo,hi], log-uniform, shrinks towards lo
    long long logRange(long long lo, long long hi) {
        const double span = std::log2(double(hi - lo) + 1.0);
        const auto e = raw(1024);
        const auto max = static_cast<long long>(std::exp2(span * double(e + 1) / 1024.0)) - 1;
        const auto v = range(0, std::min(std::max(0ll, max), hi - lo));
        return lo + v;
    }
    double unit() { return double(raw(1ull << 53)) * 0x1p-53; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    /// true with probability num/den, shrinks towards false
    bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; }
    /// index distributed by weights, shrinks towards 0
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t sum = 0; for (auto x : w) sum += x;
        auto v = raw(sum); size_t i = 0;
        for (auto x : w) { if (v < x) return i; v -= x; ++i; }
        return w.size() - 1;
    }
    template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size())); }
    /// one recorded choice that seeds a bulk generator
    Rng bulk() { return Rng(raw(1ull << 48)); }

    const std::vector<uint64_t>& choices() const { return m_out; }
    static uint64_t* sink;          ///< shared memory copy of the choices, survives a crash of the case
    static size_t sinkCapacity;
private:
    bool m_replaying = false;
    Rng m_rng;
    std::vector<uint64_t> m_in, m_out;
    size_t m_pos = 0;
};

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Skip {};

/// What one case reports
class Case {
public:
    void label(const std::string& l) { m_labels[l]++; }
    void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
    void describe(const std::string& d) { m_description = d; publish(); }
    void note(const std::string& d) { m_description += (m_description.empty() ? "" : "; ") + d; publish(); }
    void publish() const { if (descSink) { const auto k = m_description.size() < 3999 ? m_description.size() : 3999; for (size_t i = 0; i < k; ++i) descSink[i] = m_description[i]; descSink[k] = 0; } }
    static char* descSink; ///< shared memory copy of the description, survives a crash
    [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
    void require(bool b, const std::string& m) { if (!b) fail(m); }
    [[noreturn]] void skip() { throw Skip{}; } ///< outside the property's domain; counted separately
    void count(const std::string& what, double by) { m_counts[what] += by; }
    bool thorough = false;
    bool replaying = false;

    std::map<std::string, uint64_t> m_labels;
    std::map<std::string, double> m_counts;
    bool m_nontrivial = false;
    std::string m_description;
};

using PropFn = std::function<void(Source&, Case&)>;

struct Sub {
    std::string name;
    int quick;          ///< cases in the quick tier
    int thorough;       ///< cases in the thorough tier
    PropFn fn;
    int cores = 1;      ///< how many worker slots a case occupies (it spawns threads of its own)
    double hang_s = 240;///< wall time after which a case that keeps burning CPU counts as hanging (a case that sleeps is caught earlier)
    bool hang_is_violation = true;
    double hang_idle_s = 45;
};

struct Property {
    std::string id;
    std::string rule;
    std::vector<std::string> assumptions;
    std::vector<Sub> subs;
    std::function<void()> init; ///< runs in every worker before the first case
};

Property define(); ///< each property file implements this

std::string fmt(double x);
template <typename T> std::string str(const T& t) { std::ostringstream s; s << t; return s.str(); }
inline std::string str(double t) { return fmt(t); }
template <typename... A> std::string cat(const A&... a) { std::string r; (void)std::initializer_list<int>{(r += str(a), 0)...}; return r; }

int main(int argc, char** argv);

} // namespace pbt
