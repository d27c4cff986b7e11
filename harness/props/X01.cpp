// PLUGIN girg dbg rel o0 bmi bmidbg
// PLUGIN hrg dbg rel o0
#include "variants.h"

namespace {
std::vector<std::string> girgConfigs() {
    std::vector<std::string> r{"dbg", "rel", "o0"};
    if (__builtin_cpu_supports("bmi2")) { r.push_back("bmi"); r.push_back("bmidbg"); }
    return r;
}
std::vector<std::string> hrgConfigs() { return {"dbg", "rel", "o0"}; }
void beforeRun(size_t) {}
} // namespace

pbt::Property pbt::define() {
    return {"X01",
        "A case is one valid call (weights, positions, scaling, radii, angles, disc radii, edge lists, generator objects; threads 1-8) executed in every build: assertions with -O2 (the default build), assertions without optimisation, -O3 with NDEBUG and, where the processor has them, both with BMI2 instructions. Results must agree bit by bit (edges in order with one thread, as a set otherwise) and no assertion may fire. Non-trivial: the result is not empty.",
        {"scaling is compared with one thread only: the order of parallel summation changes its last bits", "floating-point contraction and -ffast-math are not among the builds, the repository does not use them"},
        {{"girg-edges", 16000, 300000, [](Source& s, Case& c) { girgEdges(s, c, false); }}, {"girg-large", 300, 6000, [](Source& s, Case& c) { girgEdges(s, c, true); }}, {"girg-deep", 100, 3000, girgDeep}, {"girg-values", 3000, 20000, girgValues},
         {"hrg-edges", 16000, 300000, [](Source& s, Case& c) { hrgEdges(s, c, false); }}, {"hrg-large", 300, 6000, [](Source& s, Case& c) { hrgEdges(s, c, true); }}, {"hrg-values", 3000, 20000, hrgValues}},
        [] { for (auto& x : girgConfigs()) girg(x); for (auto& x : hrgConfigs()) hrg(x); }};
}
