// R01 - the algebra of ranges is the algebra of sets of points.
#include "util.h"
#include "swoc/DiscreteRange.h"
#include <bitset>
using swoc::DiscreteRange;
using swoc::DiscreteRangeRelation;
using swoc::DiscreteRangeEdgeRelation;
using pbt::Src;

namespace
{
/// A metric that is a class, with its own limits.
struct Metric {
  int16_t n;
  static const Metric MIN;
  static const Metric MAX;
  explicit constexpr Metric(int k = 0) : n(k) {}
  Metric &
  operator++()
  {
    n = n == MAX.n ? MIN.n : n + 1;
    return *this;
  }
  Metric &
  operator--()
  {
    n = n == MIN.n ? MAX.n : n - 1;
    return *this;
  }
  bool operator==(Metric const &that) const { return n == that.n; }
  bool operator!=(Metric const &that) const { return n != that.n; }
  bool operator<(Metric const &that) const { return n < that.n; }
  bool operator<=(Metric const &that) const { return n <= that.n; }
  bool operator>(Metric const &that) const { return n > that.n; }
  bool operator>=(Metric const &that) const { return n >= that.n; }
};
const Metric Metric::MIN{-3};
const Metric Metric::MAX{12};

template <typename T> struct Dom;
template <> struct Dom<Metric> {
  static constexpr int lo = -3, hi = 12;
  static int get(Metric m) { return m.n; }
};
template <> struct Dom<uint8_t> {
  static constexpr int lo = 0, hi = 255;
  static int get(uint8_t m) { return m; }
};
template <> struct Dom<int8_t> {
  static constexpr int lo = -128, hi = 127;
  static int get(int8_t m) { return m; }
};

template <typename T>
void
run(Src &g)
{
  using R          = DiscreteRange<T>;
  using D          = Dom<T>;
  constexpr int SZ = D::hi - D::lo + 1;
  using Set        = std::bitset<SZ>;
  auto point       = [&](int around) -> int {
    switch (g.weighted({4, 2, 2})) {
    case 0:
      return D::lo + int(g.draw(SZ - 1));
    case 1:
      return g.flip() ? D::lo + int(g.draw(1)) : D::hi - int(g.draw(1));
    }
    return std::min(D::hi, std::max(D::lo, around + int(g.draw(4)) - 2));
  };
  auto points = [&](R const &r) {
    Set s;
    for (int i = D::lo; i <= D::hi; ++i)
      s[i - D::lo] = D::get(r.min()) <= i && i <= D::get(r.max());
    return s;
  };
  auto gen = [&](int around, char const *name) -> R {
    switch (g.weighted({10, 2, 1, 1, 1})) {
    case 0: {
      int a = point(around), b = point(a);
      if (a > b)
        std::swap(a, b);
      g.note(name, " [", a, ",", b, "]");
      return R(T(a), T(b));
    }
    case 1: {
      int a = point(around);
      g.note(name, " singleton ", a);
      R r{T(a)};
      REQ(r.is_singleton() && !r.empty() && D::get(r.min()) == a && D::get(r.max()) == a, "singleton");
      return r;
    }
    case 2: {
      g.note(name, " all");
      return R(T(D::lo), T(D::hi));
    }
    case 3:
    default:
      g.note(name, " empty");
      return R{};
    case 4: { // empty, but not cleared
      int a = point(around), b = point(a);
      if (a == b)
        return R{};
      g.note(name, " empty [", std::max(a, b), ",", std::min(a, b), "]");
      return R(T(std::max(a, b)), T(std::min(a, b)));
    }
    }
  };
  R x = gen(point(0), "x");
  R y = gen(g.flip() ? D::get(x.min()) : D::get(x.max()), "y");
  R z = gen(point(0), "z");
  Set sx = points(x), sy = points(y), sz = points(z);
  bool ex = sx.none(), ey = sy.none();
  // --- one range
  REQ_EQ(x.empty(), ex);
  REQ_EQ(bool(x), !ex);
  REQ_EQ(!x, ex);
  REQ_EQ(x.is_singleton() && !ex, sx.count() == 1);
  REQ_EQ(x.is_maximal(), sx.all());
  for (int i = D::lo; i <= D::hi; ++i)
    REQ_EQ(x.contains(T(i)), bool(sx[i - D::lo]), "contains ", i);
  {
    R c(x);
    REQ(&c.clear() == &c && c.empty(), "clear");
    REQ(&c.assign(y.min(), y.max()) == &c && c == y, "assign");
    REQ(c.assign(x.min()).is_singleton() && c.min() == x.min() && c.max() == x.min());
    c = x;
    c.assign_min(y.min());
    REQ(c.min() == y.min() && c.max() == x.max(), "assign_min");
    c.assign_max(y.max());
    REQ(c == y, "assign_max");
    if (!ex && !(x.max() == T(D::lo))) {
      c = x;
      c.clip_max();
      REQ(c.min() == x.min() && D::get(c.max()) == D::get(x.max()) - 1, "clip_max");
    }
  }
  // --- pairs
  Set sand = sx & sy, sor = sx | sy;
  if (!ex || !ey) { // equality is of the bounds, so that of empty ranges depends on the bounds.
    REQ_EQ(x == y, sx == sy, "==");
    REQ_EQ(x != y, sx != sy, "!=");
  } else {
    REQ_EQ(x == y, x.min() == y.min() && x.max() == y.max(), "==");
    REQ_EQ(x != y, !(x == y), "!=");
  }
  REQ_EQ(x.has_intersection_with(y), sand.any(), "has_intersection_with");
  REQ_EQ(y.has_intersection_with(x), sand.any(), "has_intersection_with");
  REQ_EQ(x ^ y, sand.any(), "^");
  R i = x.intersection(y);
  REQ(points(i) == sand, "intersection");
  REQ_EQ(i.empty(), sand.none(), "intersection");
  // an empty range, no matter how it came to be.
  REQ_EQ(i.has_intersection_with(z), (sand & sz).any(), "intersection of the intersection");
  REQ(points(i.intersection(z)) == (sand & sz), "intersection of the intersection");
  for (int k = D::lo; k <= D::hi; ++k)
    REQ_EQ(i.contains(T(k)), bool(sand[k - D::lo]));
  {
    R c(x);
    REQ(&(c &= y) == &c && points(c) == sand, "&=");
  }
  auto hull = [&](Set const &s) {
    Set h;
    int a = -1, b = -1;
    for (int k = 0; k < SZ; ++k)
      if (s[k]) {
        a = a < 0 ? k : a;
        b = k;
      }
    if (a >= 0)
      for (int k = a; k <= b; ++k)
        h[k] = true;
    return h;
  };
  REQ(points(x.hull(y)) == hull(sor), "hull");
  REQ(points(i.hull(z)) == hull(sand | sz), "hull with an intersection");
  REQ(points(z.hull(i)) == hull(sand | sz), "hull with an intersection");
  {
    R c(x);
    REQ(&(c |= y) == &c && points(c) == hull(sor), "|=");
    c = i;
    c |= z;
    REQ(points(c) == hull(sand | sz), "|= with an intersection");
    c = z;
    c |= i;
    REQ(points(c) == hull(sand | sz), "|= an intersection");
  }
  bool sub = (sx & ~sy).none(), sup = (sy & ~sx).none();
  REQ_EQ(x.is_subset_of(y), sub, "subset");
  REQ_EQ(x.is_superset_of(y), sup, "superset");
  REQ_EQ(x.is_strict_subset_of(y), sub && sx != sy, "strict subset");
  REQ_EQ(x.is_strict_superset_of(y), sup && sx != sy, "strict superset");
  REQ_EQ(x <= y, sub);
  REQ_EQ(x >= y, sup);
  REQ_EQ(x < y, sub && sx != sy);
  REQ_EQ(x > y, sup && sx != sy);
  bool ladj = false, radj = false;
  if (ex || ey) {
    REQ(!x.is_left_adjacent_to(y) && !x.is_adjacent_to(y), "adjacent to an empty range");
    REQ(x.has_union(y), "union with an empty range");
    REQ_EQ(int(x.relationship(y)), int(DiscreteRangeRelation::NONE), "relationship with an empty range");
  } else {
    ladj = D::get(x.max()) + 1 == D::get(y.min());
    radj = D::get(y.max()) + 1 == D::get(x.min());
    REQ_EQ(x.is_left_adjacent_to(y), ladj, "left adjacent");
    REQ_EQ(x.is_adjacent_to(y), ladj || radj, "adjacent");
    REQ_EQ(x.has_union(y), ladj || radj || sand.any(), "has_union");
    auto want = sx == sy         ? DiscreteRangeRelation::EQUAL :
                sub              ? DiscreteRangeRelation::SUBSET :
                sup              ? DiscreteRangeRelation::SUPERSET :
                sand.any()       ? DiscreteRangeRelation::OVERLAP :
                (ladj || radj)   ? DiscreteRangeRelation::ADJACENT :
                                   DiscreteRangeRelation::NONE;
    REQ_EQ(int(x.relationship(y)), int(want), "relationship");
    int l     = D::get(y.min());
    auto edge = l > D::get(x.max()) + 1  ? DiscreteRangeEdgeRelation::GAP :
                l == D::get(x.max()) + 1 ? DiscreteRangeEdgeRelation::ADJ :
                l >= D::get(x.min())     ? DiscreteRangeEdgeRelation::OVLP :
                                           DiscreteRangeEdgeRelation::NONE;
    REQ_EQ(int(x.left_edge_relationship(y)), int(edge), "left edge relationship");
    typename R::lexicographic_order lt;
    bool less = std::pair(D::get(x.min()), D::get(x.max())) < std::pair(D::get(y.min()), D::get(y.max()));
    REQ_EQ(lt(x, y), less, "lexicographic order");
  }
  g.label("empty", ex || ey);
  g.label("adjacent", ladj || radj);
  g.label("overlap", sand.any() && !sub && !sup);
  g.label("subset", sub && sx != sy && !ex);
  g.label("at limit", !ex && (sx[0] || sx[SZ - 1]));
  g.nontrivial(ladj || radj || sand.any() || ex || ey);
}
} // namespace

PROPERTY(class_metric, 3, "the ranges touch, overlap or one is empty")
{
  run<Metric>(g);
}
PROPERTY(unsigned_metric, 1, "the ranges touch, overlap or one is empty")
{
  run<uint8_t>(g);
}
PROPERTY(signed_metric, 1, "the ranges touch, overlap or one is empty")
{
  run<int8_t>(g);
}
