// EXEFLAGS -fopenmp -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR=1 -DUSE_BMI2 -mbmi2
// ENV ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:max_malloc_fill_size=65536
// ENV UBSAN_OPTIONS=print_stacktrace=1
// SOURCE x02/C06.cpp
#include "x02/run.h"
pbt::Property pbt::define() {
    std::vector<Sub> s; auto p = define_C06();
    x02::add(s, p, "tuples", 40000, 1000000); x02::add(s, p, "blocks", 20, 600);
    return {"X02", "", {}, s, nullptr};
}
