// EXEFLAGS -fopenmp -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS
#define INTSORT_HEADER <girgs/IntSort.h>
#include "intsort_check.h"
using namespace vp;

pbt::Property pbt::define() {
    return {"C01",
        "A case is a sequence (up to 6000 elements, large: over 2^17 so that several threads work), a distribution of keys, a maximum key (exact, with room, power of two, one less, full type), a key type of 8..64 bits, a digit width of 1..12 bits, a container form (vector, iterator range within a vector, shared_ptr, unique_ptr, move-only elements, plain integers) and a thread count. The result must be ordered by key, a permutation of the input (elements carry identities), and elements outside the range unchanged. Both copies of the header are tested, under AddressSanitizer. Non-trivial: at least two elements and a key above 0.",
        {"iterator ranges are those of vectors, the header does not compile for others", "digit widths up to 12 bits, whose counters fit into the stack of a thread"},
        {{"girgs", 60000, 1000000, [](Source& s, Case& c) { anySort(s, c, false); }}, {"girgs-large", 60, 1000, [](Source& s, Case& c) { anySort(s, c, true); }, 4}}, nullptr};
}
