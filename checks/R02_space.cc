// R02 - a discrete space is a map from every metric to at most one payload.
#include "util.h"
#include "swoc/DiscreteRange.h"
#include <optional>
#include <vector>
#include <cmath>
using swoc::DiscreteRange;
using swoc::DiscreteSpace;
using pbt::Src;
using pbt::Tracked;

namespace
{
/// A metric that is a class, with its own limits.
template <int LO, int HI, typename I> struct Metric {
  I n;
  static const Metric MIN;
  static const Metric MAX;
  explicit constexpr Metric(int k = 0) : n(I(k)) {}
  Metric &
  operator++()
  {
    n = n == I(HI) ? I(LO) : I(n + 1);
    return *this;
  }
  Metric &
  operator--()
  {
    n = n == I(LO) ? I(HI) : I(n - 1);
    return *this;
  }
  bool operator==(Metric const &that) const { return n == that.n; }
  bool operator!=(Metric const &that) const { return n != that.n; }
  bool operator<(Metric const &that) const { return n < that.n; }
  bool operator<=(Metric const &that) const { return n <= that.n; }
  bool operator>(Metric const &that) const { return n > that.n; }
  bool operator>=(Metric const &that) const { return n >= that.n; }
};
template <int LO, int HI, typename I> const Metric<LO, HI, I> Metric<LO, HI, I>::MIN{LO};
template <int LO, int HI, typename I> const Metric<LO, HI, I> Metric<LO, HI, I>::MAX{HI};

template <typename T> struct Dom;
template <int LO, int HI, typename I> struct Dom<Metric<LO, HI, I>> {
  static constexpr int lo = LO, hi = HI;
  static int get(Metric<LO, HI, I> m) { return m.n; }
};

struct Blend {
  char const *name;
  bool (*fn)(int &, int);
};
// All of these are pure functions of (left, right).
const Blend BLENDS[] = {
  {"assign", [](int &l, int r) { l = r; return true; }},
  {"sum4", [](int &l, int r) { l = (l + r) % 4; return l != 0; }},
  {"or", [](int &l, int r) { l |= r; return true; }},
  {"and", [](int &l, int r) { l &= r; return true; }},
  {"and!0", [](int &l, int r) { l &= r; return l != 0; }},
  {"clear", [](int &, int) { return false; }},
  {"only-set", [](int &l, int r) { if (l == 0) return false; l = r; return true; }},
  {"xor", [](int &l, int r) { l ^= r; return true; }},
  {"xor!0", [](int &l, int r) { l ^= r; return l != 0; }},
  {"keep", [](int &, int) { return true; }},
  {"drop-equal", [](int &l, int r) { return l != r; }},
};

template <typename T>
void
run(Src &g)
{
  using R          = DiscreteRange<T>;
  using D          = Dom<T>;
  using Space      = DiscreteSpace<T, Tracked>;
  constexpr int SZ = D::hi - D::lo + 1;
  using Model      = std::vector<std::optional<int>>;

  long const live0 = Tracked::live;
  {
    Space space;
    Space const &cspace = space;
    Model model(SZ);
    bool blended = false;
    // Points at which a range may start although the previous one is adjacent with the same payload. A blend coalesces
    // the part it covers and with the range on the left, a payload written through an iterator coalesces nothing.
    std::vector<bool> loose(SZ + 1, false);
    std::vector<int> hot; // boundaries used so far, to make adjacency and exact overlap common.
    unsigned overlaps = 0, aliases = 0;

    auto point = [&]() -> int {
      switch (g.weighted({4, 1, 5})) {
      case 0:
        return D::lo + int(g.draw(SZ - 1));
      case 1:
        return g.flip() ? D::lo + int(g.draw(1)) : D::hi - int(g.draw(1));
      }
      if (hot.empty())
        return D::lo + int(g.draw(SZ - 1));
      int k = hot[g.draw(hot.size() - 1)] + int(g.draw(2)) - 1;
      return std::min(D::hi, std::max(D::lo, k));
    };

    auto full_check = [&](char const *when) {
      std::vector<std::pair<int, int>> seen;
      // forward, agrees with the model.
      Model got(SZ);
      int last = D::lo - 1;
      for (auto const &node : cspace) {
        int a = D::get(node.min()), b = D::get(node.max());
        REQ(a <= b, when, ": inverted range in the space ", a, "..", b);
        REQ(a > last, when, ": ranges overlap or are out of order at ", a, " after ", last);
        last = b;
        seen.emplace_back(a, b);
        for (int k = a; k <= b; ++k)
          got[k - D::lo] = const_cast<std::remove_const_t<std::remove_reference_t<decltype(node)>> &>(node).payload().get();
      }
      for (int k = D::lo; k <= D::hi; ++k) {
        auto const &m = model[k - D::lo], &s = got[k - D::lo];
        REQ(m == s, when, ": iteration: metric ", k, " has ", s ? *s : -999, " expected ", m ? *m : -999, " (-999 is none)");
      }
      REQ_EQ(space.count(), seen.size(), when, ": count");
      REQ_EQ(space.empty(), seen.empty(), when, ": empty");
      REQ_EQ(Tracked::live - live0, long(seen.size()), when, ": number of payloads alive");
      // backward
      auto spot = space.end();
      for (size_t i = seen.size(); i-- > 0;) {
        --spot;
        REQ(D::get(spot->min()) == seen[i].first && D::get(spot->max()) == seen[i].second, when, ": backward iteration differs");
      }
      REQ(spot == space.begin(), when, ": backward iteration doesn't reach the start");
      // coalesced
      {
        for (int k = D::lo + 1; k <= D::hi; ++k) { // a difference ends the exception.
          if (model[k - D::lo] != model[k - 1 - D::lo])
            loose[k - D::lo] = false;
        }
        for (size_t i = 1; i < seen.size(); ++i) {
          if (seen[i].first == seen[i - 1].second + 1 && !loose[seen[i].first - D::lo]) {
            REQ(model[seen[i].first - D::lo] != model[seen[i - 1].second - D::lo], when, ": adjacent ranges at ", seen[i].first,
                " with the same payload");
          }
        }
      }
      // lookup.
      for (int k = D::lo; k <= D::hi; ++k) {
        auto const &m = model[k - D::lo];
        auto it       = space.find(T(k));
        auto cit      = cspace.find(T(k));
        REQ((it == space.end()) == !m, when, ": find(", k, ") ", m ? "missing" : "spurious");
        REQ((cit == cspace.end()) == !m, when, ": const find(", k, ") ", m ? "missing" : "spurious");
        if (m) {
          REQ_EQ(it->payload().get(), *m, when, ": find(", k, ")");
          REQ(D::get(it->min()) <= k && k <= D::get(it->max()), when, ": find(", k, ") gave another range");
          REQ(&*cit == &*it, when, ": const find(", k, ") differs");
        }
        // bounds
        auto lb = space.lower_bound(T(k));
        auto ub = space.upper_bound(T(k));
        int lx = -1, ux = -1;
        for (size_t i = 0; i < seen.size(); ++i) {
          if (seen[i].first <= k)
            lx = i;
          if (seen[i].first > k && ux < 0)
            ux = i;
        }
        REQ((lb == space.end()) == (lx < 0), when, ": lower_bound(", k, ")");
        if (lx >= 0)
          REQ_EQ(D::get(lb->min()), seen[lx].first, when, ": lower_bound(", k, ")");
        REQ((ub == space.end()) == (ux < 0), when, ": upper_bound(", k, ")");
        if (ux >= 0)
          REQ_EQ(D::get(ub->min()), seen[ux].first, when, ": upper_bound(", k, ")");
      }
      // intersection
      for (int i = 0; i < 3; ++i) {
        int a = point(), b = point();
        if (a > b)
          std::swap(a, b);
        std::vector<std::pair<int, int>> want, have;
        for (auto const &s : seen)
          if (s.first <= b && s.second >= a)
            want.push_back(s);
        auto [p, q] = space.intersection(R(T(a), T(b)));
        size_t n = 0;
        for (; p != q; ++p) {
          REQ(++n <= seen.size(), when, ": intersection [", a, ",", b, "] doesn't end");
          have.emplace_back(D::get(p->min()), D::get(p->max()));
        }
        REQ(have == want, when, ": intersection [", a, ",", b, "] has ", have.size(), " ranges, expected ", want.size());
      }
    };

    full_check("initially");
    for (unsigned n = 0; g.more(10, n, 40); ++n) {
      int a = point(), b = g.chance(15) ? a : point();
      if (a > b)
        std::swap(a, b);
      hot.push_back(a);
      hot.push_back(b);
      R r{T(a), T(b)};
      int color = int(g.draw(3));
      unsigned op = g.weighted({30, 30, 20, 30, 1, 4});
      // The arguments can be in the space itself.
      std::optional<Tracked> local(color);
      Tracked *payload = &*local;
      R const *rp      = &r;
      if (op < 4 && !space.empty() && g.chance(15)) {
        auto at = [&]() {
          auto spot = space.begin();
          for (size_t k = g.draw(space.count() - 1); k > 0; --k)
            ++spot;
          return spot;
        };
        payload = &at()->payload();
        color   = payload->get();
        if (g.chance(30)) {
          rp = &at()->range();
          a  = D::get(rp->min());
          b  = D::get(rp->max());
        }
        g.note("arguments are from the space", rp == &r ? "" : ", range too");
        ++aliases;
      }
      bool touch  = false;
      for (int k = std::max(D::lo, a - 1); k <= std::min(D::hi, b + 1); ++k)
        touch |= bool(model[k - D::lo]);
      overlaps += touch && op < 4;
      std::string what;
      switch (op) {
      case 0: {
        what = "mark";
        g.note("mark [", a, ",", b, "] ", color);
        auto &ret = space.mark(*rp, *payload);
        REQ(&ret == &space, "mark returns another space");
        for (int k = a; k <= b; ++k)
          model[k - D::lo] = color;
        for (int k = a + 1; k <= b; ++k)
          loose[k - D::lo] = false;
        break;
      }
      case 1: {
        what = "fill";
        g.note("fill [", a, ",", b, "] ", color);
        auto &ret = space.fill(*rp, *payload);
        REQ(&ret == &space, "fill returns another space");
        for (int k = a; k <= b; ++k)
          if (!model[k - D::lo])
            model[k - D::lo] = color;
        break;
      }
      case 2: {
        what = "erase";
        g.note("erase [", a, ",", b, "]");
        auto &ret = space.erase(*rp);
        REQ(&ret == &space, "erase returns another space");
        for (int k = a; k <= b; ++k)
          model[k - D::lo].reset();
        break;
      }
      case 3: {
        auto const &bl = BLENDS[g.draw(std::size(BLENDS) - 1)];
        what           = std::string("blend ") + bl.name;
        g.note("blend ", bl.name, " [", a, ",", b, "] ", color);
        blended = true;
        for (int k = a; k <= b; ++k)
          loose[k - D::lo] = false;
        loose[b + 1 - D::lo] = bool(model[b - D::lo]); // new ranges are coalesced on the right too.
        auto blender = [&](Tracked &l, int const &rhs) -> bool {
          l.get();
          return bl.fn(l.v, rhs);
        };
        if (g.flip()) // a part of a payload
          space.blend(*rp, payload->v, blender);
        else
          space.blend(*rp, *payload, [&](Tracked &l, Tracked const &rhs) -> bool { return blender(l, rhs.get()); });
        for (int k = a; k <= b; ++k) {
          auto &m = model[k - D::lo];
          int v   = m.value_or(0);
          if (bl.fn(v, color))
            m = v;
          else
            m.reset();
        }
        break;
      }
      case 4: {
        what = "clear";
        g.note("clear");
        space.clear();
        model.assign(SZ, std::nullopt);
        loose.assign(SZ + 1, false);
        break;
      }
      case 5: { // writing through a lookup
        what   = "write";
        auto p = space.find(T(a));
        g.note("write at ", a, " ", color);
        if (p != space.end()) {
          p->payload() = Tracked(color);
          for (int k = D::get(p->min()); k <= D::get(p->max()); ++k)
            model[k - D::lo] = color;
          loose[D::get(p->min()) - D::lo]     = true;
          loose[D::get(p->max()) + 1 - D::lo] = true;
        }
        break;
      }
      }
      local.reset();
      full_check(what.c_str());
    }
    g.nontrivial(overlaps >= 2);
    g.label("blended", blended);
    g.label("arguments in the space", aliases > 0);
    g.label("ranges>=5", space.count() >= 5);
    g.label("at max", bool(model[SZ - 1]));
    g.label("at min", bool(model[0]));
  }
  REQ_EQ(Tracked::live, live0, "payloads left alive or destroyed twice by the destructor");
}

/// Lookup has to be logarithmic, whatever the order of the updates.
struct Big {
  uint32_t n;
  static long compares;
  static const Big MIN;
  static const Big MAX;
  explicit constexpr Big(uint32_t k = 0) : n(k) {}
  Big &
  operator++()
  {
    ++n;
    return *this;
  }
  Big &
  operator--()
  {
    --n;
    return *this;
  }
  bool operator==(Big const &that) const { return ++compares, n == that.n; }
  bool operator!=(Big const &that) const { return ++compares, n != that.n; }
  bool operator<(Big const &that) const { return ++compares, n < that.n; }
  bool operator<=(Big const &that) const { return ++compares, n <= that.n; }
  bool operator>(Big const &that) const { return ++compares, n > that.n; }
  bool operator>=(Big const &that) const { return ++compares, n >= that.n; }
};
long Big::compares = 0;
const Big Big::MIN{0};
const Big Big::MAX{~uint32_t(0)};
} // namespace

PROPERTY(small_space, 6, "at least two updates touched existing ranges")
{
  g.scaled();
  run<Metric<-3, 28, int>>(g);
}
PROPERTY(octet_space, 2, "at least two updates touched existing ranges")
{
  g.scaled();
  run<Metric<0, 255, uint8_t>>(g);
}
PROPERTY(signed_octet_space, 1, "at least two updates touched existing ranges")
{
  g.scaled();
  run<Metric<-128, 127, int8_t>>(g);
}

PROPERTY(balance, 1, "at least 100 ranges")
{
  g.scaled();
  using R = DiscreteRange<Big>;
  DiscreteSpace<Big, int> space;
  std::vector<int> model; // slot -> color, -1 for none. Slot i is [8i, 8i+4].
  unsigned n = 50 + unsigned(g.draw(g.chance(20) ? 1500 : 250));
  if (size_t k = g.bulk(5); k > n)
    n = unsigned(k);
  model.assign(n, -1);
  unsigned order = unsigned(g.draw(4));
  g.note("slots ", n, " order ", order);
  auto put = [&](unsigned s) {
    R r{Big(8 * s), Big(8 * s + 4)};
    if (g.flip())
      space.mark(r, int(s));
    else
      space.fill(r, int(s));
    if (model[s] < 0)
      model[s] = s;
  };
  auto mix = [&](unsigned k) { return unsigned((uint64_t(k) * 2654435761u + 12345) % n); };
  for (unsigned i = 0; i < n; ++i) {
    switch (order) {
    case 0: put(i); break;
    case 1: put(n - 1 - i); break;
    case 2: put(i & 1 ? i / 2 : n - 1 - i / 2); break;
    case 3: put(mix(i)); break;
    case 4: put(unsigned(g.draw(n - 1))); break;
    }
  }
  // Erase some runs.
  for (unsigned k = 0; g.more(3, k, 10); ++k) {
    unsigned a = unsigned(g.draw(n - 1)), len = unsigned(g.draw(n / 3)), step = 1 + unsigned(g.draw(3));
    for (unsigned s = a; s < std::min(n, a + len); s += step) {
      space.erase(R{Big(8 * s), Big(8 * s + 4)});
      model[s] = -1;
    }
    if (g.flip()) {
      for (unsigned s = a; s < std::min(n, a + len); s += 2)
        put(s);
    }
  }
  size_t count = 0;
  for (int m : model)
    count += m >= 0;
  REQ_EQ(space.count(), count, "count");
  {
    unsigned at = 0;
    for (auto const &r : space) {
      while (at < n && model[at] < 0)
        ++at;
      REQ(at < n && r.min().n == 8 * at && r.max().n == 8 * at + 4, "iteration, range ", r.min().n);
      ++at;
    }
    while (at < n && model[at] < 0)
      ++at;
    REQ(at == n, "iteration ends at ", at, " of ", n);
    auto spot = space.end();
    while (at > 0) {
      if (model[--at] >= 0) {
        REQ(spot != space.begin(), "reverse iteration ends at ", at);
        --spot;
        REQ(spot->min().n == 8 * at, "reverse iteration at ", at);
      }
    }
    REQ(spot == space.begin(), "reverse iteration");
  }
  double limit = 14 * std::log2(double(count) + 1) + 24;
  for (unsigned s = 0; s < n; ++s) {
    for (unsigned off : {0u, 4u, 5u}) {
      Big::compares = 0;
      auto p        = space.find(Big(8 * s + off));
      long used     = Big::compares;
      REQ(double(used) <= limit, "lookup of slot ", s, " used ", used, " comparisons for ", count, " ranges");
      bool want = off <= 4 && model[s] >= 0;
      REQ((p != space.end()) == want, "slot ", s, "+", off, want ? " missing" : " spurious");
      if (want)
        REQ_EQ(p->payload(), model[s], "slot ", s);
    }
  }
  g.nontrivial(count >= 100);
}
