// What a plugin (one build configuration of the code under test) offers to the property files.
#pragma once
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace vp {

using Edges = std::vector<std::pair<int, int>>;
using Pos = std::vector<std::vector<double>>;
using Vec = std::vector<double>;
using OnEdge = std::function<void(size_t run, int u, int v, int tid)>;

struct Girg {
    void (*setThreads)(int);
    int (*maxThreads)();
    Vec (*weights)(int n, double ple, int seed, bool parallel);
    Pos (*positions)(int n, int d, int seed, bool parallel);
    /// "" or a description of the exception
    std::string (*scale)(Vec& weights, double deg, int d, double alpha, double* scaling);
    Edges (*edges)(const Vec& weights, const Pos& positions, double alpha, int seed);
    /// one generator object used for all seeds in turn; onEdge is called concurrently
    void (*tree)(const Vec& weights, const Pos& positions, double alpha, bool profile, const std::vector<int>& seeds, const OnEdge& onEdge);
    std::string (*saveDot)(const Vec& weights, const Pos& positions, const Edges& graph, const std::string& file);
    /// run body(i) in a parallel region of the given team size, i = thread number
    void (*insideParallel)(int team, const std::function<void(int)>& body);
};

struct Hrg {
    void (*setThreads)(int);
    int (*maxThreads)();
    double (*radius)(int n, double alpha, double T, double deg);
    double (*radiusNkr)(int n, double alpha, double T, double deg);
    Vec (*radii)(int n, double alpha, double R, int seed, bool parallel);
    Vec (*angles)(int n, int seed, bool parallel);
    std::pair<Vec, Vec> (*both)(int n, double alpha, double R, int seed, bool parallel);
    Edges (*edges)(Vec& radii, Vec& angles, double T, double R, int seed);
    void (*tree)(const Vec& radii, const Vec& angles, double T, double R, bool profile, const std::vector<int>& seeds, const OnEdge& onEdge);
    void (*insideParallel)(int team, const std::function<void(int)>& body);
};

const Girg& girg(const std::string& config);
const Hrg& hrg(const std::string& config);
std::string cliPath(const std::string& name, const std::string& config);

} // namespace vp
