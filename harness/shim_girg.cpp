// Exposes the girgs library of one build configuration. Uses only what the README, the public headers,
// the command line programs and the examples use.
#include <cmath>
#include <iostream>
#include <stdexcept>
#include <omp.h>

#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>

#include "api.h"

namespace {

template <unsigned D>
void runTree(const vp::Vec& w, const vp::Pos& p, double alpha, bool profile, const std::vector<int>& seeds, const vp::OnEdge& f) {
    size_t run = 0;
    auto cb = [&](int u, int v, int tid) { f(run, u, v, tid); };
    auto tree = girgs::makeSpatialTree<D>(w, p, alpha, cb, profile);
    for (auto s : seeds) { tree.generateEdges(s); ++run; }
}

void setThreads(int t) { omp_set_num_threads(t); }
int maxThreads() { return omp_get_max_threads(); }
vp::Vec weights(int n, double ple, int seed, bool par) { return girgs::generateWeights(n, ple, seed, par); }
vp::Pos positions(int n, int d, int seed, bool par) { return girgs::generatePositions(n, d, seed, par); }
std::string scale(vp::Vec& w, double deg, int d, double alpha, double* s) {
    try { *s = girgs::scaleWeights(w, deg, d, alpha); return ""; }
    catch (const char* e) { return std::string("char*: ") + e; }
    catch (const std::exception& e) { return std::string("std: ") + e.what(); }
    catch (...) { return "unknown"; }
}
vp::Edges edges(const vp::Vec& w, const vp::Pos& p, double alpha, int seed) { return girgs::generateEdges(w, p, alpha, seed); }
void tree(const vp::Vec& w, const vp::Pos& p, double alpha, bool profile, const std::vector<int>& seeds, const vp::OnEdge& f) {
    switch (p.front().size()) {
        case 1: runTree<1>(w, p, alpha, profile, seeds, f); break;
        case 2: runTree<2>(w, p, alpha, profile, seeds, f); break;
        case 3: runTree<3>(w, p, alpha, profile, seeds, f); break;
        case 4: runTree<4>(w, p, alpha, profile, seeds, f); break;
        case 5: runTree<5>(w, p, alpha, profile, seeds, f); break;
        default: throw std::logic_error("dimension");
    }
}
std::string saveDot(const vp::Vec& w, const vp::Pos& p, const vp::Edges& g, const std::string& file) {
    try { girgs::saveDot(w, p, g, file); return ""; }
    catch (const std::exception& e) { return std::string("std: ") + e.what(); }
    catch (...) { return "unknown"; }
}
void insideParallel(int team, const std::function<void(int)>& body) {
    #pragma omp parallel num_threads(team)
    body(omp_get_thread_num());
}
const vp::Girg api{setThreads, maxThreads, weights, positions, scale, edges, tree, saveDot, insideParallel};

} // namespace

extern "C" __attribute__((visibility("default"))) const vp::Girg* vp_girg_api() { return &api; }
