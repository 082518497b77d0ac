// the portable 32-bit-pieces multiplication
#include <cstdint>
#undef __SIZEOF_INT128__
#include "fast_positive/erthink/erthink_mul.h"
#include "bits_alt.h"
uint64_t alt_mul_64x64_128(uint64_t a, uint64_t b, uint64_t *high) {
  return erthink::mul_64x64_128(a, b, high);
}
