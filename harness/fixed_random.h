// Makes std::random_device give a fixed sequence (only include in one file of a
// program), so that code under test that seeds from it can be replayed.
#pragma once

#include <random>

std::random_device::result_type std::random_device::_M_getval() {
  static uint64_t x{0x9e3779b97f4a7c15ULL};
  x = x * 6364136223846793005ULL + 1442695040888963407ULL;
  return static_cast<result_type>(x >> 33);
}
