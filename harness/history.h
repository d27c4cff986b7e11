// Histories of calls: every operation has one result, whatever is called before, meanwhile and after it.
#pragma once
#include <atomic>
#include <thread>
#include <unistd.h>
#include "gen.h"

namespace vp {

using Result = std::vector<uint64_t>;
inline void putDouble(Result& r, double x) { uint64_t b; std::memcpy(&b, &x, 8); r.push_back(b); }
inline Result ofVec(const Vec& v) { Result r; r.reserve(v.size() + 1); r.push_back(v.size()); for (auto x : v) putDouble(r, x); return r; }
inline Result ofPos(const Pos& p) { Result r; r.push_back(p.size()); for (auto& q : p) { r.push_back(q.size()); for (auto x : q) putDouble(r, x); } return r; }
/// the order of edges is part of the result with one thread only
inline Result ofEdges(Edges e, bool ordered) {
    if (!ordered) { for (auto& x : e) if (x.first > x.second) std::swap(x.first, x.second); std::sort(e.begin(), e.end()); }
    Result r; r.reserve(e.size() + 1); r.push_back(e.size());
    for (auto& x : e) r.push_back((uint64_t(uint32_t(x.first)) << 32) | uint32_t(x.second));
    return r;
}

/// how one execution is disturbed
struct Disturb {
    uint64_t state = 0; unsigned rate = 0; ///< sleep in one of rate callbacks, 400 times at most
    std::shared_ptr<std::atomic<uint64_t>> calls = std::make_shared<std::atomic<uint64_t>>(0), sleeps = std::make_shared<std::atomic<uint64_t>>(0);
    void edge() {
        if (!rate) return;
        const auto x = pbt::mix64(state ^ calls->fetch_add(1, std::memory_order_relaxed));
        if (x % rate == 0 && sleeps->load(std::memory_order_relaxed) < 400) { sleeps->fetch_add(1, std::memory_order_relaxed); usleep(useconds_t(x >> 40) % 300); }
    }
};

struct Op {
    std::string text;
    int threads;
    std::function<Result(Disturb)> run;
    Result expected;
};

struct Threads { void (*set)(int); };

inline std::string firstDifference(const Result& a, const Result& b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return cat("first difference at word ", i, " of ", a.size(), " and ", b.size());
}

/// runs the operations in turn, then shuffled, concurrently, with sleeping callbacks and from inside a parallel region
inline void checkHistory(Source& s, Case& c, std::vector<Op>& ops, void (*setThreads)(int), void (*insideParallel)(int, const std::function<void(int)>&)) {
    auto exec = [&](Op& o, Disturb d) { setThreads(o.threads); return o.run(d); };
    for (auto& o : ops) o.expected = exec(o, Disturb{});
    auto compare = [&](const Op& o, const Result& r, const std::string& how) {
        if (r != o.expected) c.fail(cat(o.text, " gives a different result ", how, ": ", firstDifference(o.expected, r)));
    };
    const int extra = int(s.range(1, 4));
    for (int i = 0; i < extra; ++i) switch (s.weighted({30, 35, 15, 20})) {
        case 0: { // other order, repetitions
            const int k = int(s.range(1, 2 * (long long)ops.size()));
            for (int j = 0; j < k; ++j) { auto& o = ops[s.raw(ops.size())]; compare(o, exec(o, Disturb{}), "when called again after other calls"); }
            c.label("repeated"); break; }
        case 1: { // other threads at the same time
            const int T = int(s.range(2, 5));
            std::vector<std::vector<size_t>> plan(static_cast<size_t>(T)); std::vector<Disturb> dist;
            for (auto& p : plan) { const int k = int(s.range(1, 4)); for (int j = 0; j < k; ++j) p.push_back(s.raw(ops.size())); Disturb d; if (s.chance(1, 3)) { d.rate = 1u << s.range(3, 8); d.state = s.raw(1 << 20); } dist.push_back(d); }
            std::vector<std::string> errors(static_cast<size_t>(T)); std::vector<std::thread> th;
            for (size_t t = 0; t < size_t(T); ++t) th.emplace_back([&, t] { for (auto j : plan[t]) { auto r = exec(ops[j], dist[t]); if (r != ops[j].expected && errors[t].empty()) errors[t] = cat(ops[j].text, " gives a different result when other threads generate at the same time: ", firstDifference(ops[j].expected, r)); } });
            for (auto& t : th) t.join();
            for (auto& e : errors) if (!e.empty()) c.fail(e);
            c.label("concurrent"); break; }
        case 2: { // slow callbacks
            auto& o = ops[s.raw(ops.size())]; Disturb d; d.rate = 1u << s.range(2, 7); d.state = s.raw(1 << 20);
            compare(o, exec(o, d), "when callbacks are delayed"); c.label("delayed"); break; }
        default: { // sequential generation by every thread of a parallel region
            std::vector<size_t> seq; for (size_t j = 0; j < ops.size(); ++j) if (ops[j].threads == 1) seq.push_back(j);
            if (seq.empty()) break;
            const int team = int(s.range(2, 5)); std::vector<size_t> pick; for (int t = 0; t < team; ++t) pick.push_back(seq[s.raw(seq.size())]);
            std::vector<std::string> errors(static_cast<size_t>(team));
            setThreads(team);
            insideParallel(team, [&](int t) { if (t < 0 || t >= team) return; auto& o = ops[pick[size_t(t)]]; auto r = exec(o, Disturb{}); if (r != o.expected) errors[size_t(t)] = cat(o.text, " gives a different result when called in thread ", t, " of a parallel region: ", firstDifference(o.expected, r)); });
            for (auto& e : errors) if (!e.empty()) c.fail(e);
            c.label("nested"); break; }
    }
}

} // namespace vp
