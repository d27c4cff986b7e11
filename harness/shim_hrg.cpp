// Exposes the hypergirgs library of one build configuration. Uses only what the README, the public headers,
// the command line programs and the examples use.
#include <cmath>
#include <iostream>
#include <exception>
#include <omp.h>

#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>

#include "api.h"

namespace {

void setThreads(int t) { omp_set_num_threads(t); }
int maxThreads() { return omp_get_max_threads(); }
double radius(int n, double a, double T, double deg) { return hypergirgs::calculateRadius(n, a, T, deg); }
double radiusNkr(int n, double a, double T, double deg) { try { return hypergirgs::calculateRadiusLikeNetworKit(n, a, T, deg); } catch (const std::exception&) { return std::nan(""); } } // no such radius
vp::Vec radii(int n, double a, double R, int seed, bool par) { return hypergirgs::sampleRadii(n, a, R, seed, par); }
vp::Vec angles(int n, int seed, bool par) { return hypergirgs::sampleAngles(n, seed, par); }
std::pair<vp::Vec, vp::Vec> both(int n, double a, double R, int seed, bool par) { return hypergirgs::sampleRadiiAndAngles(n, a, R, seed, par); }
vp::Edges edges(vp::Vec& r, vp::Vec& a, double T, double R, int seed) { return hypergirgs::generateEdges(r, a, T, R, seed); }
void tree(const vp::Vec& r, const vp::Vec& a, double T, double R, bool profile, const std::vector<int>& seeds, const vp::OnEdge& f) {
    size_t run = 0;
    auto cb = [&](int u, int v, int tid) { f(run, u, v, tid); };
    auto gen = hypergirgs::makeHyperbolicTree(r, a, T, R, cb, profile);
    for (auto s : seeds) { gen.generate(s); ++run; }
}
void insideParallel(int team, const std::function<void(int)>& body) {
    #pragma omp parallel num_threads(team)
    body(omp_get_thread_num());
}
const vp::Hrg api{setThreads, maxThreads, radius, radiusNkr, radii, angles, both, edges, tree, insideParallel};

} // namespace

extern "C" __attribute__((visibility("default"))) const vp::Hrg* vp_hrg_api() { return &api; }
