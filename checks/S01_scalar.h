#pragma once
// S01 - scaled values never change magnitude silently.
#include "util.h"
#include "swoc/Scalar.h"
#include <sstream>
using swoc::Scalar;
using pbt::Src;
using i128 = __int128;

namespace
{
struct named {
  static constexpr char const *label = " things";
};

i128
floor_div(i128 n, i128 d)
{
  i128 q = n / d;
  return q - (n % d < 0);
}
i128
ceil_div(i128 n, i128 d)
{
  return -floor_div(-n, d);
}

template <intmax_t N, typename C1, intmax_t S, typename C2, typename T>
void
run(Src &g)
{
  using A          = Scalar<N, C1, T>;
  using B          = Scalar<S, C2, T>;
  constexpr bool U = std::is_unsigned_v<C1>;
  constexpr int64_t LIM1 = sizeof(C1) == 4 || sizeof(C2) == 4 ? 1 << 18 : int64_t(1) << 32;
  constexpr int64_t LIM2 = LIM1;
  auto val = [&](int64_t lim) -> int64_t {
    int64_t n = g.flip() ? int64_t(g.draw(40)) : int64_t(g.draw(lim));
    if (!U && g.flip())
      n = -n;
    return n;
  };
  int64_t n = val(LIM1), k = val(LIM2);
  if (g.chance(40)) // make the values close.
    k = int64_t(i128(n) * N / S) + (U ? int64_t(g.draw(1)) : int64_t(g.draw(2)) - 1);
  if (k > LIM2 || k < -LIM2)
    k = 3;
  A a(n);
  B b(k);
  g.note("scale ", N, " count ", n, "   scale ", S, " count ", k);
  i128 va = i128(n) * N, vb = i128(k) * S;
  auto value = [](auto const &s) { return i128(s.count()) * std::decay_t<decltype(s)>::SCALE; };
  REQ(a.count() == C1(n) && a.value() == C1(va), "value");
  REQ_EQ(static_cast<C1>(a), C1(va), "conversion to the counter type");
  REQ_EQ(A::scale(), N);
  REQ_EQ(A::SCALE, N);
  REQ(A().count() == 0);
  // --- comparison
  REQ_EQ(a < b, va < vb, "<");
  REQ_EQ(a <= b, va <= vb, "<=");
  REQ_EQ(a == b, va == vb, "==");
  REQ_EQ(a > b, va > vb, ">");
  REQ_EQ(a >= b, va >= vb, ">=");
  // --- rounding between scales.
  i128 up = ceil_div(vb, N) * N, down = floor_div(vb, N) * N;
  {
    A x = swoc::round_up(b);
    REQ(value(x) == up, "round up, count ", x.count());
    A y = swoc::round_down(b);
    REQ(value(y) == down, "round down, count ", y.count());
    if constexpr (N != S) {
      A z(n);
      z = A(swoc::round_up(b));
      REQ(value(z) == up);
      z = A(swoc::round_down(b));
      REQ(value(z) == down);
    }
    REQ(x == A(x), "copy");
    if (sizeof(C1) == 8 && (!U || i128(n) >= up / N)) {
      A z(n);
      REQ(&(z += swoc::round_up(b)) == &z && value(z) == va + up, "+= rounded up, count ", z.count());
      z.assign(n);
      REQ(&(z -= swoc::round_up(b)) == &z && value(z) == va - up, "-= rounded up, count ", z.count());
      z.assign(n);
      REQ(&(z += swoc::round_down(b)) == &z && value(z) == va + down, "+= rounded down, count ", z.count());
      z.assign(n);
      REQ(&(z -= swoc::round_down(b)) == &z && value(z) == va - down, "-= rounded down, count ", z.count());
    }
    if constexpr (N == S && std::is_same_v<C1, C2>) {
      A z(1);
      z = swoc::round_up(b);
      REQ(value(z) == vb);
      z = A(1);
      z = swoc::round_down(b);
      REQ(value(z) == vb);
      z = A(1);
      REQ(value(z.assign(swoc::round_up(b))) == vb && value(z) == vb);
      z = A(1);
      REQ(value(z.assign(swoc::round_down(b))) == vb && value(z) == vb);
      REQ(value(a + swoc::round_up(b)) == va + vb && value(swoc::round_up(b) + a) == va + vb);
      REQ(value(a + swoc::round_down(b)) == va + vb && value(swoc::round_down(b) + a) == va + vb);
      if (!U || n >= k)
        REQ(value(a - swoc::round_up(b)) == va - vb && value(a - swoc::round_down(b)) == va - vb);
      if (!U || k >= n)
        REQ(value(swoc::round_up(b) - a) == vb - va && value(swoc::round_down(b) - a) == vb - va);
    }
    // exact in the other direction when possible
    if constexpr (S == N)
      REQ(x.count() == k && y.count() == k);
  }
  // --- rounding of units
  int64_t u = int64_t(vb) + (U ? int64_t(g.draw(N)) : int64_t(g.draw(2 * N)) - N);
  if (U && u < 0)
    u = 0;
  {
    g.note("units ", u);
    i128 uu = ceil_div(u, N), ud = floor_div(u, N);
    A x = swoc::round_up(u), y = swoc::round_down(u);
    REQ(x.count() == C1(uu), "unit round up ", x.count());
    REQ(y.count() == C1(ud), "unit round down ", y.count());
    A z(n);
    z = swoc::round_up(u);
    REQ(z.count() == C1(uu));
    z = swoc::round_down(u);
    REQ(z.count() == C1(ud));
    z.assign(swoc::round_up(u));
    REQ(z.count() == C1(uu));
    z.assign(swoc::round_down(u));
    REQ(z.count() == C1(ud));
    if (!U || (n >= uu && n >= ud)) {
      z.assign(n);
      REQ(&(z += swoc::round_up(u)) == &z && z.count() == C1(n + uu), "+=");
      z.assign(n);
      z += swoc::round_down(u);
      REQ(z.count() == C1(n + ud), "+=");
      z.assign(n);
      z -= swoc::round_up(u);
      REQ(z.count() == C1(n - uu), "-=");
      z.assign(n);
      z -= swoc::round_down(u);
      REQ(z.count() == C1(n - ud), "-=");
      REQ((a + swoc::round_up(u)).count() == C1(n + uu));
      REQ((a + swoc::round_down(u)).count() == C1(n + ud));
      REQ((swoc::round_up(u) + a).count() == C1(n + uu));
      REQ((swoc::round_down(u) + a).count() == C1(n + ud));
      REQ((a - swoc::round_up(u)).count() == C1(n - uu));
      REQ((a - swoc::round_down(u)).count() == C1(n - ud));
      if (!U) {
        REQ((swoc::round_up(u) - a).count() == C1(uu - n));
        REQ((swoc::round_down(u) - a).count() == C1(ud - n));
      }
    }
    REQ(swoc::round_up<N>(u) == uu * N, "round_up<>(", u, ") is ", swoc::round_up<N>(u));
    REQ(swoc::round_down<N>(u) == ud * N, "round_down<>(", u, ") is ", swoc::round_down<N>(u));
  }
  // --- lossless conversion
  if constexpr (S % N == 0 && sizeof(C1) == 8) {
    A x(b);
    REQ(value(x) == vb, "construct from multiple");
    A y(1);
    y = b;
    REQ(value(y) == vb, "assign from multiple");
    y.assign(b);
    REQ(value(y) == vb, "assign from multiple");
    if (!U || va >= vb) {
      A z(n);
      z += b;
      REQ(value(z) == va + vb, "+=");
      A w(n);
      w -= b;
      REQ(value(w) == va - vb, "-=");
    }
  }
  // --- arithmetic across scales
  {
    auto s = a + b;
    static_assert(N % decltype(s)::SCALE == 0 && S % decltype(s)::SCALE == 0, "common scale divides both");
    if (sizeof(typename decltype(s)::Counter) == 8) {
      REQ(value(s) == va + vb, "sum");
      if (!U || va >= vb)
        REQ(value(a - b) == va - vb, "difference");
      if (!U || vb >= va)
        REQ(value(b - a) == vb - va, "difference");
    }
    if (k != 0)
      REQ(i128(a / b) == va / vb, "quotient");
    if (n != 0)
      REQ(i128(b / a) == vb / va, "quotient");
  }
  // --- counts
  {
    int64_t m = 1 + g.draw(50);
    A z(n);
    REQ(&++z == &z && z.count() == C1(n + 1), "++");
    REQ((z++).count() == C1(n + 1) && z.count() == C1(n + 2), "++");
    REQ(&--z == &z && z.count() == C1(n + 1), "--");
    REQ((z--).count() == C1(n + 1) && z.count() == C1(n), "--");
    REQ(&z.inc(m) == &z && z.count() == C1(n + m), "inc");
    REQ(&z.dec(m) == &z && z.count() == C1(n), "dec");
    REQ((z.plus(m)).count() == C1(n + m) && z.count() == C1(n), "plus");
    if (!U || n >= m)
      REQ((z.minus(m)).count() == C1(n - m) && z.count() == C1(n), "minus");
    REQ((z(m)).count() == C1(m) && z.count() == C1(n), "function call");
    REQ((z *= m).count() == C1(n * m), "*=");
    REQ((z /= C1(m)).count() == C1(n), "/=");
    if constexpr (!std::is_same_v<C1, int>) {
      REQ((z * C1(m)).count() == C1(n * m) && (C1(m) * z).count() == C1(n * m), "*");
    }
    if constexpr (!std::is_same_v<C1, int> || std::is_same_v<T, swoc::tag::generic>) {
      REQ((z * int(m)).count() == C1(n * m) && (int(m) * z).count() == C1(n * m), "* int");
    }
    REQ((z / C1(m)).count() == C1(n / m), "/");
    REQ((z / int(m)).count() == C1(n / m), "/ int");
    REQ((z += A(C1(m))).count() == C1(n + m), "+=");
    REQ((z -= A(C1(m))).count() == C1(n), "-=");
  }
  std::ostringstream os, want;
  os << a;
  want << int64_t(va);
  if (std::is_same_v<T, named>)
    want << " things";
  REQ_EQ(os.str(), want.str(), "stream");
  g.label("negative", va < 0 || vb < 0);
  g.label("equal value", va == vb);
  g.label("not a multiple", vb % N != 0);
  g.nontrivial(vb % N != 0 || va == vb);
}

using fn = void (*)(Src &);
template <intmax_t N, typename C1, typename C2, typename T, intmax_t... S>
void
rows(std::vector<fn> &v)
{
  (v.push_back(&run<N, C1, S, C2, T>), ...);
}
template <typename C1, typename C2, typename T, intmax_t... N>
void
table(std::vector<fn> &v)
{
  (rows<N, C1, C2, T, N...>(v), ...);
}
} // namespace
