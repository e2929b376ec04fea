// Allocations that fail, and the bytes held (plain builds only: replaces malloc and the global operator new).
#pragma once
#include <cstddef>
#include <cstdint>
namespace mem {
// Allocations of at least min_bytes fail from the first-th one on (counted since arm), last_after of them at most.
void arm(size_t min_bytes, uint64_t first, uint64_t how_many);
void disarm();
uint64_t seen();    // allocations of that size since arm
uint64_t refused(); // failed ones since arm
int64_t live();     // bytes held now, usable size, whoever allocated them
int64_t blocks();   // their number
int64_t peak();     // most since reset_peak
void reset_peak();
} // namespace mem
