// S01 - part of the matrix of scales.
#include "S01_scalar.h"

PROPERTY(scalar_b, 1, "the second value is not a multiple of the first scale, or the values are equal")
{
  static std::vector<fn> const fns = [] {
    std::vector<fn> t;
    rows<6, int64_t, int64_t, swoc::tag::generic, 1, 4, 6, 9, 16, 100, 1024>(t);
    rows<9, int64_t, int64_t, swoc::tag::generic, 1, 4, 6, 9, 16, 100, 1024>(t);
    return t;
  }();
  g.pick(fns)(g);
}
