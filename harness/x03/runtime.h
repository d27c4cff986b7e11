// An OpenMP runtime for ThreadSanitizer: the synchronisation it announces is exactly what OpenMP promises (start and
// end of parallel regions, barriers, critical sections, locks), everything else leaves no trace a race could hide behind.
#pragma once
#include <cstdint>
namespace x03 {
/// threads start in a random order and are delayed at random; at most `limit` threads per region (0: as many as asked for)
void configure(uint64_t seed, unsigned delayRate, int limit);
uint64_t regions(); ///< parallel regions with more than one thread so far
}
