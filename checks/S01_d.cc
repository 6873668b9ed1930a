// S01 - part of the matrix of scales.
#include "S01_scalar.h"

PROPERTY(scalar_d, 1, "the second value is not a multiple of the first scale, or the values are equal")
{
  static std::vector<fn> const fns = [] {
    std::vector<fn> t;
    rows<1024, int64_t, int64_t, swoc::tag::generic, 1, 2, 6, 9, 16, 100, 1024>(t);
    table<int64_t, int, named, 1, 6, 1000>(t);
    return t;
  }();
  g.pick(fns)(g);
}
