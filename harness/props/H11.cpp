// PLUGIN girg dbg rel
// PLUGIN hrg dbg rel
#include "terminate.h"
using namespace vp;

pbt::Property pbt::define() {
    return {"H11",
        "A case is an instance (from a single vertex on), a number of requested threads (1..64), dynamic adjustment, an enclosing parallel region (with and without nested teams), a new calling thread, a seed and a build; the same again in a process with OMP_THREAD_LIMIT=3. The call has to return (a process that idles or runs far beyond its time is reported) and the graph has to be the exact threshold graph, or a simple graph with all edges of probability 1. Non-trivial: more than one thread is requested, or there is an enclosing region, or n <= 3.",
        {"GIRG: W/w_min^2 bounded such that the tree fits into memory", "HRG: R >= 1, radii in [2.2e-8, R)"},
        {{"girg", 9000, 150000, [](Source& s, Case& c) { girgTerminates(s, c, false); }, 2}, {"hrg", 9000, 150000, [](Source& s, Case& c) { hrgTerminates(s, c, false); }, 2}, {"samplers", 3000, 40000, [](Source& s, Case& c) { samplersTerminate(s, c, false); }, 2}},
        [] { girg("dbg"); girg("rel"); hrg("dbg"); hrg("rel"); }};
}
