// STATIC girg asanrel
// STATIC hrg asanrel
// EXEFLAGS -fopenmp -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1
// ENV ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:max_malloc_fill_size=65536
// ENV UBSAN_OPTIONS=print_stacktrace=1
// SOURCE x02/G01.cpp
// SOURCE x02/G04.cpp
// SOURCE x02/G05.cpp
// SOURCE x02/G06.cpp
// SOURCE x02/G07.cpp
// SOURCE x02/G08.cpp
// SOURCE x02/G09.cpp
// SOURCE x02/G10.cpp
// SOURCE x02/H01.cpp
// SOURCE x02/H04.cpp
// SOURCE x02/H05.cpp
// SOURCE x02/H06.cpp
// SOURCE x02/H07.cpp
// SOURCE x02/H08.cpp
// SOURCE x02/H09.cpp
// SOURCE x02/C01_hyper.cpp
#include "x02/run.h"
pbt::Property pbt::define() {
    auto s = x02::libraryCalls(1);
    x02::add(s, define_C01_hyper(), "hypergirgs", 2000, 60000); x02::add(s, define_C01_hyper(), "hypergirgs-large", 3, 60);
    for (auto& x : s) x.name += "-ndebug";
    return {"X02", "", {}, s, nullptr};
}
