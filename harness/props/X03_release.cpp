// STATIC girg tsanrel
// STATIC hrg tsanrel
// EXEFLAGS -O1 -fsanitize=thread
// CFLAGS -fopenmp
// RAWSOURCE x03/runtime.cpp
// ENV TSAN_OPTIONS=halt_on_error=1:detect_deadlocks=0:report_signal_unsafe=0:history_size=5:second_deadlock_stack=1
// SOURCE x02/C01_hyper.cpp
#include "x02/run.h"
#include "x03/cases.h"

pbt::Property pbt::define() {
    std::vector<Sub> s;
    x03::addCases(s, "-ndebug", 0.5);
    x03::addWrapped(s, define_C01_hyper(), "hypergirgs", 600, 10000); x03::addWrapped(s, define_C01_hyper(), "hypergirgs-large", 30, 500);
    for (auto& x : s) if (x.name.find("-ndebug") == std::string::npos) x.name += "-ndebug";
    return {"X03", "", {}, s, nullptr};
}
