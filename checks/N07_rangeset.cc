// N07 - IPRangeSet is a set of addresses.
#include "ip_util.h"
#include <map>
using pbt::Src;
using namespace swoc;

namespace
{
/// Disjoint, non adjacent ranges, first -> last.
struct Set {
  std::map<u128, u128> r;
  void
  add(u128 lo, u128 hi)
  {
    for (auto s = r.begin(); s != r.end();) {
      bool left  = s->second < lo && lo - s->second > 1;
      bool right = s->first > hi && s->first - hi > 1;
      if (!left && !right) {
        lo = std::min(lo, s->first);
        hi = std::max(hi, s->second);
        s  = r.erase(s);
      } else
        ++s;
    }
    r[lo] = hi;
  }
  bool
  has(u128 v) const
  {
    for (auto [a, b] : r)
      if (a <= v && v <= b)
        return true;
    return false;
  }
};
} // namespace

PROPERTY(history, 1, "at least 3 ranges in the set and one merge")
{
  g.scaled();
  IPRangeSet set;
  Set m[2];
  std::vector<u128> pool[2];
  for (int i = 0; i < 4; ++i) {
    pool[0].push_back(gen_value(g, 4));
    pool[1].push_back(gen_value(g, 6));
  }
  auto point = [&](int f) -> u128 {
    auto &p = pool[f == 6];
    switch (g.weighted({6, 2, 1})) {
    case 0:
      return nearby(g, f, p[g.draw(p.size() - 1)]);
    case 1:
      return g.flip() ? u128(g.draw(2)) : max_of(f) - g.draw(2);
    }
    return gen_value(g, f);
  };
  bool merged = false;
  size_t n_bulk = g.bulk(3, 3000);
  if (n_bulk) { // start with a large set
    for (int f : {4, 6}) {
      if (g.chance(30))
        continue;
      u128 base = gen_value(g, f) & ~u128(0xFFFFF), len = g.draw(3);
      bool back = g.flip();
      for (size_t i = 0; i < n_bulk; ++i) {
        size_t k = back ? n_bulk - 1 - i : i;
        u128 lo  = base + 8 * k;
        m[f == 6].r[lo] = lo + len;
        set.fill(IPRange(mk(Any{f, lo}), mk(Any{f, lo + len})));
      }
      pool[f == 6].push_back(base + 8 * g.draw(n_bulk - 1));
      pool[f == 6].push_back(base + 8 * n_bulk);
    }
  }
  for (unsigned n = 0; g.more(12, n, n_bulk ? 10 : 60); ++n) {
    int f   = g.flip() ? 6 : 4;
    u128 lo = point(f), hi = g.chance(50) ? lo : point(f);
    if (lo > hi)
      std::swap(lo, hi);
    size_t before = m[f == 6].r.size();
    m[f == 6].add(lo, hi);
    merged |= m[f == 6].r.size() <= before;
    IPRange r(mk(Any{f, lo}), mk(Any{f, hi}));
    bool fill = g.flip();
    g.note(fill ? "fill v" : "mark v", f, " ", show(lo), " - ", show(hi));
    REQ(&(fill ? set.fill(r) : set.mark(r)) == &set, "result");
    if (g.chance(5))
      set.mark(IPRange{}).fill(IPRange{});
    if (g.chance(2)) {
      g.note("clear");
      set.clear();
      m[0].r.clear();
      m[1].r.clear();
      REQ(set.empty() && set.count() == 0 && set.begin() == set.end(), "cleared");
    }
    // check
    REQ_EQ(set.count(), m[0].r.size() + m[1].r.size(), "count");
    REQ_EQ(set.empty(), m[0].r.empty() && m[1].r.empty(), "empty");
    std::vector<std::pair<Any, Any>> want;
    for (int k : {0, 1})
      for (auto [a, b] : m[k].r)
        want.push_back({Any{k ? 6 : 4, a}, Any{k ? 6 : 4, b}});
    size_t i = 0;
    for (auto const &v : set) {
      REQ(i < want.size() && val(v.min()) == want[i].first && val(v.max()) == want[i].second, "range ", i);
      ++i;
    }
    REQ_EQ(i, want.size(), "iteration");
    i = 0;
    for (auto it = set.begin(); it != set.end(); ++i) {
      auto old = it++;
      REQ(i < want.size() && old != it && val(old->min()) == want[i].first && val((*old).max()) == want[i].second, "post increment ", i);
      decltype(it) c;
      c = it;
      REQ(c == it, "assigned");
    }
    REQ_EQ(i, want.size(), "post increment");
    auto spot = set.end();
    while (i > 0) {
      --i;
      if (g.flip())
        --spot;
      else {
        auto old = spot--;
        REQ(old != spot, "post decrement");
      }
      REQ(val(spot->min()) == want[i].first && val((*spot).max()) == want[i].second, "reverse iteration, range ", i);
    }
    REQ(spot == set.begin(), "reverse iteration ends at begin");
    for (int k = 0; k < 3; ++k) {
      int f2 = g.flip() ? 6 : 4;
      u128 v = k == 0 ? nearby(g, f, lo) : k == 1 ? nearby(g, f, hi) : point(f2);
      int fk = k == 2 ? f2 : f;
      REQ_EQ(set.contains(mk(Any{fk, v})), m[fk == 6].has(v), "contains v", fk, " ", show(v));
    }
    REQ(!set.contains(IPAddr{}), "contains invalid address");
  }
  for (int k : {0, 1}) {
    int f = k ? 6 : 4;
    for (auto [a, b] : m[k].r) {
      REQ(set.contains(mk(Any{f, a})) && set.contains(mk(Any{f, b})), "ends of a range");
      if (a)
        REQ(!set.contains(mk(Any{f, a - 1})), "before a range");
      if (b != max_of(f))
        REQ(!set.contains(mk(Any{f, b + 1})), "after a range");
    }
  }
  g.nontrivial(merged && m[0].r.size() + m[1].r.size() > 2);
  g.label("both families", !m[0].r.empty() && !m[1].r.empty());
  g.label("merged", merged);
}
