// PLUGIN girg varzero varpattern rel o0
// PLUGIN hrg varzero varpattern rel o0
#include "variants.h"
#include <atomic>
#include <cstdlib>
#include <malloc.h>

static std::atomic<int> fillByte{-1};
static std::atomic<unsigned long> filled{0};
static void* filledAlloc(std::size_t n) {
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    const int b = fillByte.load(std::memory_order_relaxed);
    if (b >= 0) { std::memset(p, b, n); filled.fetch_add(1, std::memory_order_relaxed); }
    return p;
}
static void filledFree(void* p) {
    const int b = fillByte.load(std::memory_order_relaxed);
    if (p && b >= 0) std::memset(p, b, malloc_usable_size(p));
    std::free(p);
}
void* operator new(std::size_t n) { return filledAlloc(n); }
void* operator new[](std::size_t n) { return filledAlloc(n); }
void operator delete(void* p) noexcept { filledFree(p); }
void operator delete[](void* p) noexcept { filledFree(p); }
void operator delete(void* p, std::size_t) noexcept { filledFree(p); }
void operator delete[](void* p, std::size_t) noexcept { filledFree(p); }

namespace {
// Contents of automatic variables: zero, a pattern, and what is left on the stacks, which is filled before the calls
std::vector<std::string> girgConfigs() { return {"varzero", "varpattern", "rel", "o0"}; }
std::vector<std::string> hrgConfigs() { return girgConfigs(); }
__attribute__((noinline)) void fillStack(int byte) {
    volatile char room[96 * 1024];
    std::memset(const_cast<char*>(room), byte, sizeof room);
    asm volatile("" : : "r"(room) : "memory");
}
void beforeRun(size_t i) {
    static const int bytes[] = {0, 0xFF, 0x7E, 0x41};
    static const std::vector<std::string> configs = girgConfigs();
    fillByte = bytes[i]; fillStack(bytes[i]);
    auto& g = girg(configs[i]); const int threads = g.maxThreads(); // threads of the runtime, they serve both libraries
    if (threads > 1) g.insideParallel(threads, [&](int) { fillStack(bytes[i]); });
}

void seesAllocations(Source&, Case& c) { // the library takes its memory from the functions above
    const auto before = filled.load(); fillByte = 1;
    girg("varzero").weights(1000, 2.5, 1, false);
    if (filled.load() == before) throw std::logic_error("memory of the library is not filled");
    c.nontrivial();
}
} // namespace

pbt::Property pbt::define() {
    return {"X02", "", {},
        {{"fill-works", 1, 1, seesAllocations}, {"fill-girg-edges", 6000, 120000, [](Source& s, Case& c) { girgEdges(s, c, false); }}, {"fill-girg-large", 60, 1500, [](Source& s, Case& c) { girgEdges(s, c, true); }}, {"fill-girg-values", 600, 8000, girgValues},
         {"fill-hrg-edges", 6000, 120000, [](Source& s, Case& c) { hrgEdges(s, c, false); }}, {"fill-hrg-large", 60, 1500, [](Source& s, Case& c) { hrgEdges(s, c, true); }}, {"fill-hrg-values", 600, 8000, hrgValues}},
        [] { for (auto& x : girgConfigs()) girg(x); for (auto& x : hrgConfigs()) hrg(x); }};
}
