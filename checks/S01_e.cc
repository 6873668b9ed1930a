// S01 - part of the matrix of scales.
#include "S01_scalar.h"

PROPERTY(scalar_e, 1, "the second value is not a multiple of the first scale, or the values are equal")
{
  static std::vector<fn> const fns = [] {
    std::vector<fn> t;
    table<int, int64_t, named, 1, 4, 6>(t);
    return t;
  }();
  g.pick(fns)(g);
}
