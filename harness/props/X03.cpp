// STATIC girg tsan
// STATIC hrg tsan
// EXEFLAGS -O1 -fsanitize=thread
// CFLAGS -fopenmp
// RAWSOURCE x03/runtime.cpp
// ENV TSAN_OPTIONS=halt_on_error=1:detect_deadlocks=0:report_signal_unsafe=0:history_size=5:second_deadlock_stack=1
// SOURCE x02/G05.cpp
// SOURCE x02/H05.cpp
// SOURCE x02/C01.cpp
#include "x02/run.h"
#include "x03/cases.h"

pbt::Property pbt::define() {
    std::vector<Sub> s;
    x03::addCases(s, "", 1);
    x03::addWrapped(s, define_G05(), "history", 100, 3000); x03::addWrapped(s, define_H05(), "history", 100, 3000);
    x03::addWrapped(s, define_C01(), "girgs", 600, 10000); x03::addWrapped(s, define_C01(), "girgs-large", 30, 500);
    return {"X03",
        "A case is a parallel call of the library with 2 to 8 threads (edge lists, generator objects with callbacks writing to one buffer per thread number, weights, positions, radii, angles, scaling, sorting of more than 2^17 elements, graphs of more than 2^20 edges per thread found in parallel), a history of concurrent calls by several threads of the caller, or calls from inside a parallel region. Library and harness are compiled with ThreadSanitizer, with assertions and with NDEBUG, and run on an OpenMP runtime of our own, which announces exactly the synchronisation OpenMP promises, starts the threads of each region in a random order and delays them at random at every construct. A race report is a violation; so is a result that differs between executions with different schedules. Non-trivial: at least one region had several threads.",
        {"races between memory accesses the sanitizer keeps in its history", "libstdc++ itself is not instrumented", "tasks are executed at once by the thread that creates them", "sums of scaling may differ by rounding between schedules"},
        s, nullptr};
}
