// Random delays around the locks, waits and thread starts of the process, to visit other interleavings.
#pragma once
#include <cstdint>

namespace prt {
// strength 0: off; otherwise about one in `every` operations is delayed by up to max_us microseconds
void on(uint64_t seed, unsigned every, unsigned max_us);
void off();
uint64_t operations(); // since on()
uint64_t delays();
// after n more threads have been started, the system refuses to start any; n < 0: no limit
void limit_threads(int n);
uint64_t refused_threads(); // since limit_threads()
// threads started and not yet ended; kept only while asked for
void count_threads(bool on);
int64_t running_threads();
uint64_t started_threads();
} // namespace prt
