#pragma once
#include <cstdint>
uint64_t alt_mul_64x64_128(uint64_t a, uint64_t b, uint64_t *high);
