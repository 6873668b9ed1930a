// S01 - conversions and comparisons between scalars with counters of different types, over the whole range of the counters.
#include "S01_scalar.h"
#include <limits>

namespace
{
template <typename T>
bool
fits(i128 v)
{
  return v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max());
}

// Scale @a N with counter @a C1 is the target, scale @a S with counter @a C2 is the source.
template <intmax_t N, typename C1, intmax_t S, typename C2>
void
wide(Src &g)
{
  using A = Scalar<N, C1>;
  using B = Scalar<S, C2>;
  using L = std::numeric_limits<C2>;
  using W = std::common_type_t<C2, intmax_t>; // the conversion is done in 64 bits.
  i128 k;
  switch (g.draw(4)) {
  case 0:
    k = i128(L::max()) - i128(g.draw(40));
    break;
  case 1:
    k = i128(L::min()) + i128(g.draw(40));
    break;
  case 2: // at the edge of the target
    k = (g.flip() ? i128(std::numeric_limits<C1>::max()) : i128(std::numeric_limits<C1>::min())) * N / S + i128(g.draw(6)) - 3;
    break;
  case 3:
    k = i128(g.draw(300)) - 150;
    break;
  default:
    k = i128(C2(g.draw(~uint64_t(0))));
    break;
  }
  if (!fits<C2>(k))
    k = C2(k);
  B b{C2(k)};
  i128 vb = k * S;
  g.note("source scale ", S, " bytes ", sizeof(C2), " signed ", L::is_signed, " count ", int64_t(k), "  target scale ", N, " bytes ",
         sizeof(C1), " signed ", std::is_signed_v<C1>);
  i128 up = ceil_div(vb, N), down = floor_div(vb, N);
  if (fits<C1>(up) && fits<W>(up)) {
    A x = swoc::round_up(b);
    REQ(i128(x.count()) == up, "round up is ", x.count(), " expected ", int64_t(up));
    A y{C1(3)};
    y = A(swoc::round_up(b));
    REQ(i128(y.count()) == up, "assign round up is ", y.count(), " expected ", int64_t(up));
  }
  if (fits<C1>(down) && fits<W>(down)) {
    A x = swoc::round_down(b);
    REQ(i128(x.count()) == down, "round down is ", x.count(), " expected ", int64_t(down));
    A y{C1(3)};
    y = A(swoc::round_down(b));
    REQ(i128(y.count()) == down, "assign round down is ", y.count(), " expected ", int64_t(down));
  }
  if constexpr (S % N == 0) {
    if (fits<C1>(up) && fits<W>(up)) {
      A x(b);
      REQ(i128(x.count()) == up, "conversion is ", x.count(), " expected ", int64_t(up));
      A y{C1(3)};
      y = b;
      REQ(i128(y.count()) == up, "assignment is ", y.count(), " expected ", int64_t(up));
      y = A{C1(3)};
      y.assign(b);
      REQ(i128(y.count()) == up, "assign is ", y.count(), " expected ", int64_t(up));
    }
  }
  // Raw units, the count of the source in this case.
  i128 uu = ceil_div(k, N), ud = floor_div(k, N);
  if (fits<C1>(uu)) {
    A x = swoc::round_up(C2(k));
    REQ(i128(x.count()) == uu, "unit round up is ", x.count(), " expected ", int64_t(uu));
  }
  if (fits<C1>(ud)) {
    A x = swoc::round_down(C2(k));
    REQ(i128(x.count()) == ud, "unit round down is ", x.count(), " expected ", int64_t(ud));
  }
  // Comparison, if the magnitudes can be compared in 64 bits.
  i128 n = g.flip() && fits<C1>(up) ? up + i128(g.draw(2)) - 1 : i128(C1(g.draw(~uint64_t(0))));
  if (!fits<C1>(n))
    n = C1(n);
  i128 va   = n * N;
  bool sane = fits<int64_t>(va) && fits<int64_t>(vb) &&
              ((std::is_signed_v<C1> || sizeof(C1) < 8) && (std::is_signed_v<C2> || sizeof(C2) < 8) || (n >= 0 && k >= 0));
  if (sane) {
    A a{C1(n)};
    g.note("compare to count ", int64_t(n));
    REQ_EQ(a < b, va < vb, "<");
    REQ_EQ(a <= b, va <= vb, "<=");
    REQ_EQ(a == b, va == vb, "==");
    REQ_EQ(a > b, va > vb, ">");
    REQ_EQ(a >= b, va >= vb, ">=");
  }
  g.label("not representable", !fits<C1>(up) || !fits<C1>(down));
  g.label("target is wider", sizeof(C1) > sizeof(C2));
  g.label("does not fit the source counter", !fits<C2>(up));
  g.nontrivial((fits<C1>(up) || fits<C1>(down)) && (k > 40 || k < -40));
}

template <typename C1, typename C2>
void
scales(std::vector<fn> &t)
{
  t.push_back(&wide<1, C1, 1, C2>);
  t.push_back(&wide<1, C1, 10, C2>);
  t.push_back(&wide<10, C1, 1, C2>);
  t.push_back(&wide<6, C1, 10, C2>);
  t.push_back(&wide<1000, C1, 1024, C2>);
}
template <typename C1>
void
counters(std::vector<fn> &t)
{
  scales<C1, int8_t>(t);
  scales<C1, int16_t>(t);
  scales<C1, int32_t>(t);
  scales<C1, uint32_t>(t);
  scales<C1, int64_t>(t);
  scales<C1, uint64_t>(t);
}
} // namespace

PROPERTY(scalar_counters, 1, "the value is representable in the target and not small")
{
  static std::vector<fn> const fns = [] {
    std::vector<fn> t;
    counters<int8_t>(t);
    counters<uint16_t>(t);
    counters<int32_t>(t);
    counters<int64_t>(t);
    counters<uint64_t>(t);
    return t;
  }();
  g.pick(fns)(g);
}
