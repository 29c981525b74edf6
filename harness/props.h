#pragma once
#include <cstdint>
// Tag bit of property Pnn.
constexpr uint64_t P(int n) { return uint64_t(1) << (n - 1); }
