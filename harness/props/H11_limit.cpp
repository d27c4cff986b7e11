// PLUGIN girg dbg rel
// PLUGIN hrg dbg rel
// ENV OMP_THREAD_LIMIT=3
#include "terminate.h"
using namespace vp;

pbt::Property pbt::define() {
    return {"H11", "", {},
        {{"girg-limit", 5000, 80000, [](Source& s, Case& c) { girgTerminates(s, c, true); }, 2}, {"hrg-limit", 5000, 80000, [](Source& s, Case& c) { hrgTerminates(s, c, true); }, 2}, {"samplers-limit", 1500, 20000, [](Source& s, Case& c) { samplersTerminate(s, c, true); }, 2}},
        [] { girg("dbg"); girg("rel"); hrg("dbg"); hrg("rel"); }};
}
