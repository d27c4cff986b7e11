// EXEFLAGS -fopenmp -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS
#define INTSORT_HEADER <hypergirgs/IntSort.h>
#include "intsort_check.h"
using namespace vp;

pbt::Property pbt::define() {
    return {"C01", "", {}, {{"hypergirgs", 60000, 1000000, [](Source& s, Case& c) { anySort(s, c, false); }}, {"hypergirgs-large", 60, 1000, [](Source& s, Case& c) { anySort(s, c, true); }, 4}}, nullptr};
}
