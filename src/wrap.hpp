// Interposed allocation functions (linked with --wrap): the library's allocations are
// counted, tracked and, on request, made to fail.
#pragma once
#include <cstddef>
#include <cstdint>
namespace vp {
// Starts tracking: forgets everything seen before.
void track_begin();
// Stops tracking; returns the number of tracked blocks that were not freed.
size_t track_end(size_t *bytes = nullptr);
bool tracking();
size_t track_live();
// Number of allocation attempts since track_begin (malloc, calloc, realloc, strdup, strndup).
uint64_t track_count();
// Makes the allocation with this number (from 1) fail; with `persist`, all later ones too.  0: none.
void fail_at(uint64_t k, bool persist);
// How many allocations were made to fail since track_begin.
uint64_t failures();
// Fresh memory is filled with this byte (-1: as it comes).
void fill(int c);
}
