// S01 - part of the matrix of scales.
#include "S01_scalar.h"

PROPERTY(scalar_f, 1, "the second value is not a multiple of the first scale, or the values are equal")
{
  static std::vector<fn> const fns = [] {
    std::vector<fn> t;
    table<uint64_t, uint64_t, named, 1, 6, 9>(t);
    return t;
  }();
  g.pick(fns)(g);
}
