// Compiled without instrumentation. See runtime.h.
#include "runtime.h"
#include <algorithm>
#include <atomic>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <vector>

extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); }

namespace {

using ull = unsigned long long;

std::atomic<uint64_t> g_seed{0}, g_event{0}, g_regions{0};
std::atomic<unsigned> g_rate{0};
std::atomic<int> g_limit{0};

uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

struct Spin { // not seen by the sanitizer
    std::atomic<int> v{0};
    void lock() { while (v.exchange(1, std::memory_order_acquire)) sched_yield(); }
    void unlock() { v.store(0, std::memory_order_release); }
};

struct Share { // a loop, the sections or the single construct a team works on
    bool set = false; bool up = true; ull next = 0, end = 0, incr = 1, chunk = 1; int arrived = 0; bool taken = false; void* copy = nullptr;
};

struct Team {
    Team* parent = nullptr; int parentTid = 0, size = 1, level = 0, active = 0;
    std::atomic<int> waiting{0}; std::atomic<unsigned> phase{0};
    int barrierTag[2] = {0, 0};
    Spin lock; std::map<uint64_t, Share> shares;
};

struct Self { Team* team; int tid; uint64_t shareNo; uint64_t current; int nthreads; };
thread_local Self self{nullptr, 0, 0, 0, 0};

int icv() { if (!self.nthreads) { const char* e = getenv("OMP_NUM_THREADS"); self.nthreads = e && atoi(e) > 0 ? atoi(e) : 8; } return self.nthreads; }
Team& team() { static thread_local Team own; return self.team ? *self.team : own; }

void delay() {
    const unsigned rate = g_rate.load(std::memory_order_relaxed);
    if (!rate) return;
    const uint64_t x = mix(g_seed.load(std::memory_order_relaxed) ^ g_event.fetch_add(1, std::memory_order_relaxed));
    if (x % rate == 0) usleep(useconds_t(x >> 32) % 300); else if (x % rate == 1) sched_yield();
}

void barrier() {
    auto& t = team();
    if (t.size == 1) return;
    delay();
    const unsigned phase = t.phase.load(std::memory_order_acquire);
    __tsan_release(&t.barrierTag[phase & 1]);
    if (t.waiting.fetch_add(1, std::memory_order_acq_rel) + 1 == t.size) { t.waiting.store(0, std::memory_order_relaxed); t.phase.store(phase + 1, std::memory_order_release); }
    else for (int i = 0; t.phase.load(std::memory_order_acquire) == phase; ++i) { if (i < 64) sched_yield(); else usleep(20); }
    __tsan_acquire(&t.barrierTag[phase & 1]);
    delay();
}

struct Start { Team* team; int tid; void (*fn)(void*); void* data; int nthreads; uint64_t loop; };
void runAs(const Start& s) {
    const Self before = self;
    self = Self{s.team, s.tid, s.loop, s.loop, s.nthreads};
    delay();
    s.fn(s.data);
    self = before;
}
void* threadMain(void* p) { runAs(*static_cast<Start*>(p)); return nullptr; }

void parallel(void (*fn)(void*), void* data, unsigned wanted, const Share* loop) {
    auto& outer = team();
    int size = int(wanted ? wanted : unsigned(icv()));
    const int limit = g_limit.load(std::memory_order_relaxed);
    if (limit && size > limit) size = limit;
    if (outer.active >= 1) size = 1; // nested regions have one thread, the default of OpenMP
    Team t; t.parent = self.team; t.parentTid = self.tid; t.size = size; t.level = outer.level + 1; t.active = outer.active + (size > 1);
    if (loop) { t.shares[1] = *loop; }
    if (size > 1) g_regions.fetch_add(1, std::memory_order_relaxed);
    std::vector<Start> starts; for (int i = 0; i < size; ++i) starts.push_back({&t, i, fn, data, icv(), loop ? 1u : 0u});
    std::vector<pthread_t> threads;
    std::vector<int> order; for (int i = 1; i < size; ++i) order.push_back(i);
    const uint64_t r = mix(g_seed.load() ^ g_event.fetch_add(1));
    if (g_rate.load()) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[size_t(mix(r + i) % i)]);
    for (int i : order) { pthread_t h; if (pthread_create(&h, nullptr, threadMain, &starts[size_t(i)])) abort(); threads.push_back(h); }
    if (g_rate.load() && size > 1 && r % 4 == 0) usleep(500);
    runAs(starts[0]);
    for (auto h : threads) pthread_join(h, nullptr);
}

Share& share(Team& t, uint64_t no) { return t.shares[no]; }

/// chunks are handed out one by one; which thread gets one is a matter of timing
bool nextChunk(ull* from, ull* to) {
    delay();
    auto& t = team(); t.lock.lock();
    auto& s = share(t, self.current); bool ok = false;
    if (s.up ? s.next < s.end : s.next > s.end) {
        const ull iters = s.up ? (s.end - s.next + s.incr - 1) / s.incr : (s.next - s.end + (0 - s.incr) - 1) / (0 - s.incr);
        const ull k = std::min(iters, s.chunk ? s.chunk : 1);
        *from = s.next; s.next += k * s.incr; *to = k == iters ? s.end : s.next; if (k == iters) s.next = s.end; ok = true;
    }
    t.lock.unlock();
    return ok;
}
bool nextLong(long* a, long* b) { // signed bounds are shifted into the unsigned range
    ull x, y; if (!nextChunk(&x, &y)) return false;
    *a = long(x ^ (1ull << 63)); *b = long(y ^ (1ull << 63)); return true;
}
Share makeLoop(bool up, ull start, ull end, ull incr, ull chunk) { Share s; s.set = true; s.up = up; s.next = start; s.end = up ? std::max(start, end) : std::min(start, end); s.incr = incr; s.chunk = chunk ? chunk : 1; return s; }
Share makeLong(long start, long end, long incr, long chunk) { return makeLoop(incr > 0, ull(start) ^ (1ull << 63), ull(end) ^ (1ull << 63), ull(incr), ull(chunk)); }
void enterLoop(const Share& init) {
    auto& t = team(); self.current = ++self.shareNo;
    t.lock.lock(); auto& s = share(t, self.current); if (!s.set) { const int a = s.arrived; s = init; s.arrived = a; } t.lock.unlock();
}

pthread_mutex_t g_critical = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER;
pthread_mutex_t g_pool[64] = {}; int g_used = 0; // zero is the initializer; memory from malloc would count as written by the thread that asks for it first
pthread_mutex_t* named(void** p) {
    static Spin l; l.lock();
    if (!*p) { *p = &g_pool[g_used]; g_used = std::min(g_used + 1, 63); }
    auto* m = static_cast<pthread_mutex_t*>(*p);
    l.unlock(); return m;
}

} // namespace

namespace x03 {
void configure(uint64_t seed, unsigned rate, int limit) { g_seed = seed; g_rate = rate; g_limit = limit; g_event = 0; }
uint64_t regions() { return g_regions.load(); }
}

extern "C" {

int omp_get_thread_num() { return self.team ? self.tid : 0; }
int omp_get_num_threads() { return team().size; }
int omp_get_max_threads() { return icv(); }
void omp_set_num_threads(int n) { self.nthreads = n > 0 ? n : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team().active > 0; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
double omp_get_wtick() { return 1e-9; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return team().level; }
int omp_get_active_level() { return team().active; }
int omp_get_thread_limit() { const int l = g_limit.load(); return l ? l : INT_MAX; }
int omp_get_ancestor_thread_num(int l) { Team* t = self.team; int tid = self.tid; if (!t) return l == 0 ? 0 : -1; if (l < 0 || l > t->level) return -1; while (t && t->level > l) { tid = t->parentTid; t = t->parent; } return tid; }
int omp_get_team_size(int l) { Team* t = self.team; if (!t) return l == 0 ? 1 : -1; if (l < 0 || l > t->level) return -1; while (t && t->level > l) t = t->parent; return t ? t->size : 1; }
void omp_init_lock(pthread_mutex_t** l) { *l = static_cast<pthread_mutex_t*>(malloc(sizeof(pthread_mutex_t))); pthread_mutex_init(*l, nullptr); }
void omp_destroy_lock(pthread_mutex_t** l) { pthread_mutex_destroy(*l); free(*l); }
void omp_set_lock(pthread_mutex_t** l) { pthread_mutex_lock(*l); }
void omp_unset_lock(pthread_mutex_t** l) { pthread_mutex_unlock(*l); }
int omp_test_lock(pthread_mutex_t** l) { return pthread_mutex_trylock(*l) == 0; }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
void GOMP_barrier() { barrier(); }
bool GOMP_single_start() {
    delay();
    auto& t = team(); const auto no = ++self.shareNo;
    t.lock.lock(); auto& s = share(t, no); const bool first = !s.taken; s.taken = true; t.lock.unlock();
    return first;
}
void* GOMP_single_copy_start() {
    auto& t = team(); const auto no = ++self.shareNo; self.current = no;
    t.lock.lock(); auto& s = share(t, no); const bool first = !s.taken; s.taken = true; t.lock.unlock();
    if (first) return nullptr;
    barrier();
    t.lock.lock(); void* p = share(t, no).copy; t.lock.unlock();
    return p;
}
void GOMP_single_copy_end(void* data) { auto& t = team(); t.lock.lock(); share(t, self.current).copy = data; t.lock.unlock(); barrier(); }
void GOMP_critical_start() { delay(); pthread_mutex_lock(&g_critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_critical); delay(); }
void GOMP_critical_name_start(void** p) { delay(); pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named(p)); delay(); }
void GOMP_atomic_start() { pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_atomic); }

#define LOOPS(NAME) \
    bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long* x, long* y) { enterLoop(makeLong(a, b, i, c)); return nextLong(x, y); } \
    bool GOMP_loop_##NAME##_next(long* x, long* y) { return nextLong(x, y); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull a, ull b, ull i, ull c, ull* x, ull* y) { enterLoop(makeLoop(up, a, b, i, c)); return nextChunk(x, y); } \
    bool GOMP_loop_ull_##NAME##_next(ull* x, ull* y) { return nextChunk(x, y); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, long c, unsigned) { const Share s = makeLong(a, b, i, c); parallel(fn, data, n, &s); }
#define RLOOPS(NAME) \
    bool GOMP_loop_##NAME##_start(long a, long b, long i, long* x, long* y) { enterLoop(makeLong(a, b, i, 1)); return nextLong(x, y); } \
    bool GOMP_loop_##NAME##_next(long* x, long* y) { return nextLong(x, y); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, ull a, ull b, ull i, ull* x, ull* y) { enterLoop(makeLoop(up, a, b, i, 1)); return nextChunk(x, y); } \
    bool GOMP_loop_ull_##NAME##_next(ull* x, ull* y) { return nextChunk(x, y); } \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long a, long b, long i, unsigned) { const Share s = makeLong(a, b, i, 1); parallel(fn, data, n, &s); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}

unsigned GOMP_sections_next() { long a, b; return nextLong(&a, &b) ? unsigned(a) : 0; }
unsigned GOMP_sections_start(unsigned n) { enterLoop(makeLong(1, long(n) + 1, 1, 1)); return GOMP_sections_next(); }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { const Share s = makeLong(1, long(count) + 1, 1, 1); parallel(fn, data, n, &s); }

void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) { // executed at once
    if (!cpy) { fn(data); return; }
    std::vector<char> buf(size_t(size + align)); char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf.data()) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1));
    cpy(p, data); fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { delay(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

} // extern "C"
