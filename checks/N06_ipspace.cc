// N06 - IPSpace against a map from address to payload.
#include "ip_util.h"
#include <set>
#include <map>
#include <optional>
using pbt::Src;
using pbt::Tracked;
using namespace swoc;

namespace
{
using Space = IPSpace<Tracked>;
/// Function from address to payload, -1 for none. Key is the first address.
struct Map {
  u128 max;
  std::map<u128, int> segs{{0, -1}};
  explicit Map(u128 m) : max(m) {}
  void
  split(u128 v)
  {
    auto s = std::prev(segs.upper_bound(v));
    if (s->first != v)
      segs[v] = s->second;
  }
  template <typename F>
  void
  apply(u128 lo, u128 hi, F const &f)
  {
    split(lo);
    if (hi != max)
      split(hi + 1);
    for (auto s = segs.find(lo); s != segs.end() && s->first <= hi; ++s)
      s->second = f(s->second);
  }
  int
  at(u128 v) const
  {
    return std::prev(segs.upper_bound(v))->second;
  }
};
struct Seg {
  Any lo, hi;
  int v;
};
struct World {
  Src &g;
  Space space;
  Map m4{Fam<4>::MAX}, m6{Fam<6>::MAX};
  std::vector<u128> pool4, pool6;
  /// Starts of ranges which may be adjacent to a previous range with the same payload, as in R02.
  std::set<std::pair<int, u128>> loose;
  bool crossed = false, used4 = false, used6 = false;

  Map &of(int f) { return f == 4 ? m4 : m6; }
  u128
  point(int f)
  {
    auto &pool = f == 4 ? pool4 : pool6;
    switch (g.weighted({6, 2, 1})) {
    case 0:
      return nearby(g, f, pool[g.draw(pool.size() - 1)]);
    case 1:
      return g.flip() ? u128(g.draw(2)) : max_of(f) - g.draw(2);
    }
    return gen_value(g, f);
  }
  std::pair<u128, u128>
  range(int f)
  {
    u128 lo = point(f), hi = g.chance(20) ? lo : point(f);
    if (g.chance(3)) {
      lo = 0;
      hi = max_of(f);
    }
    if (lo > hi)
      std::swap(lo, hi);
    return {lo, hi};
  }
  /// Everything by iteration, must be consistent.
  std::vector<Seg>
  contents()
  {
    std::vector<Seg> z;
    size_t n4 = 0, n6 = 0;
    for (auto spot = space.begin(); spot != space.end(); ++spot) {
      IPRangeView v = spot->range_view();
      REQ(!v.empty(), "empty range in iteration");
      Seg s{val(v.min()), val(v.max()), spot->payload().get()};
      REQ(spot->range() == IPRange(v), "range of the iterator");
      REQ(s.lo.f == s.hi.f && s.lo.v <= s.hi.v, "inverted range");
      REQ(z.empty() || z.back().hi < s.lo, "out of order or overlap ", show(s.lo.v));
      auto &[r, p] = *spot;
      REQ(r == v && &p == &spot->payload(), "tuple access");
      {
        IPRangeView tv;
        Tracked tp(-5);
        std::tie(tv, tp) = spot->tuple();
        REQ(tv == v && tp.get() == s.v, "tuple");
        REQ(*spot == std::make_tuple(IPRange(v), Tracked(s.v)), "equal to tuple");
        REQ(!(*spot == std::make_tuple(IPRange(v), Tracked(s.v + 1))), "equal to tuple with another payload");
        REQ(!(*spot == std::make_tuple(IPRange(v.max()), Tracked(s.v))) || s.lo.v == s.hi.v, "equal to tuple with another range");
        REQ(std::get<0>(*spot) == v && &std::get<1>(*spot) == &p, "get");
      }
      (s.lo.f == 4 ? n4 : n6) += 1;
      z.push_back(s);
      REQ(z.size() < 1000000, "endless");
    }
    REQ_EQ(space.count(), n4 + n6, "count");
    REQ_EQ(space.count_ip4(), n4, "count_ip4");
    REQ_EQ(space.count_ip6(), n6, "count_ip6");
    REQ(space.count(AF_INET) == n4 && space.count(AF_INET6) == n6 && space.count(AF_UNIX) == 0, "count by family");
    REQ_EQ(space.empty(), z.empty(), "empty");
    return z;
  }
  void
  check()
  {
    auto z = contents();
    // exactly the function.
    size_t at = 0;
    for (int f : {4, 6}) {
      Map &m = of(f);
      settle(f);
      for (auto s = m.segs.begin(); s != m.segs.end();) { // join equal
        auto n = std::next(s);
        while (n != m.segs.end() && n->second == s->second)
          ++n;
        u128 last = n == m.segs.end() ? m.max : n->first - 1;
        if (s->second >= 0) {
          u128 want = s->first;
          for (;;) {
            REQ(at < z.size(), "addresses missing, from ", show(want));
            REQ(z[at].lo == (Any{f, want}), "expected range to start at v", f, ' ', show(want), " got v", z[at].lo.f, ' ', show(z[at].lo.v));
            REQ(z[at].hi.v <= last, "range is too long, to ", show(z[at].hi.v), " expected ", show(last));
            REQ_EQ(z[at].v, s->second, "payload at ", show(want));
            want = z[at].hi.v + 1;
            if (z[at++].hi.v == last)
              break;
            REQ(loose.count({f, want}), "ranges with the same payload are not coalesced at v", f, ' ', show(want));
          }
        }
        s = n;
      }
    }
    REQ_EQ(at, z.size(), "extra ranges");
    // backwards
    auto spot = space.end();
    for (size_t i = z.size(); i-- > 0;) {
      if (g.flip())
        --spot;
      else {
        auto old = spot--;
        REQ(old != spot, "post decrement");
      }
      REQ(val(spot->range_view().min()) == z[i].lo && spot->payload().get() == z[i].v, "reverse iteration at ", i);
    }
    REQ(spot == space.begin(), "reverse iteration ends at begin");
    // const, and by family
    Space const &cs = space;
    size_t n = 0, n4 = cs.count_ip4();
    for (auto const &[r, p] : cs) {
      REQ(val(r.min()) == z[n].lo && val(r.max()) == z[n].hi && p.get() == z[n].v, "const iteration");
      ++n;
    }
    REQ_EQ(n, z.size(), "const iteration");
    n = 0;
    for (auto s = cs.begin_ip4(); s != cs.end_ip4(); s++, ++n)
      REQ(n < n4 && val(s->range_view().min()) == z[n].lo, "IPv4 iteration");
    REQ_EQ(n, n4, "IPv4 iteration");
    for (auto s = space.begin_ip6(); s != space.end_ip6(); s++, ++n)
      REQ(n < z.size() && val(s->range_view().min()) == z[n].lo, "IPv6 iteration");
    REQ_EQ(n, z.size(), "IPv6 iteration");
    REQ(cs.begin(AF_INET) == cs.begin_ip4() && cs.end(AF_INET) == cs.end_ip4() && cs.begin(AF_INET6) == cs.begin_ip6() &&
          cs.end(AF_INET6) == cs.end_ip6() && cs.begin(AF_UNIX) == cs.end(AF_UNIX),
        "iteration by family");
    // constant, backwards, and assigned.
    auto cspot = cs.end();
    for (size_t i = z.size(); i-- > 0;) {
      Space::const_iterator old;
      REQ(cspot != cs.begin(), "constant reverse iteration ended early");
      if (g.flip()) {
        old = cspot;
        REQ(&--cspot != nullptr && cspot != old, "pre decrement");
      } else {
        old = cspot--;
        REQ(old != cspot, "post decrement");
      }
      if (i + 1 < z.size())
        REQ(val(old->range_view().min()) == z[i + 1].lo && (*old).payload().get() == z[i + 1].v, "old value of the iterator");
      else
        REQ(old == cs.end(), "old value of the iterator at the end");
      REQ(val(cspot->range_view().min()) == z[i].lo && val(cspot->range_view().max()) == z[i].hi && cspot->payload().get() == z[i].v,
          "constant reverse iteration");
    }
    REQ(cspot == cs.begin(), "constant reverse iteration");
    // post increment
    auto fspot = space.begin();
    for (size_t i = 0; i < z.size(); ++i) {
      Space::iterator old;
      if (g.flip()) {
        old = fspot++;
      } else {
        auto before = cspot++;
        REQ(before == Space::const_iterator(fspot), "constant post increment");
        REQ(val(before->range_view().min()) == z[i].lo, "constant post increment");
        --cspot;
        old = fspot;
        ++fspot;
      }
      ++cspot;
      REQ(val(old->range_view().min()) == z[i].lo && &old->payload() == &(*old).payload() && old->payload().get() == z[i].v,
          "post increment");
      REQ(Space::const_iterator(fspot) == cspot, "iterators differ");
    }
    REQ(fspot == space.end() && cspot == cs.end(), "forward iteration ends at end");
    // from the v6 boundary back.
    auto mid = space.end_ip4();
    if (n4) {
      --mid;
      REQ(val(mid->range_view().min()) == z[n4 - 1].lo, "back from the end of IPv4");
      ++mid;
      REQ(mid == space.begin_ip6(), "forward to the start of IPv6");
    }
  }
  void
  lookup(int f, u128 v)
  {
    int want     = of(f).at(v);
    IPAddr a     = mk(Any{f, v});
    auto spot    = space.find(a);
    Space const &cs = space;
    auto cspot   = cs.find(a);
    REQ_EQ(spot != space.end(), want >= 0, "found v", f, " ", show(v));
    REQ_EQ(cspot != cs.end(), want >= 0, "const found v", f, " ", show(v));
    if (want >= 0) {
      REQ_EQ(spot->payload().get(), want, "payload at v", f, " ", show(v));
      REQ_EQ(cspot->payload().get(), want, "const payload at ", show(v));
      REQ(spot->range_view().contains(a), "range of what was found");
    }
    if (f == 4) {
      REQ(space.find(ip4(v)) == spot && cs.find(ip4(v)) == cspot, "find by IPv4 address");
    } else {
      REQ(space.find(ip6(v)) == spot && cs.find(ip6(v)) == cspot, "find by IPv6 address");
    }
    // moving off of the spot is moving along the list.
    if (want >= 0) {
      auto n = spot, p = spot;
      Any lo = val(spot->range_view().min()), hi = val(spot->range_view().max());
      ++n;
      if (n != space.end()) {
        REQ(hi < val(n->range_view().min()), "next of found");
        --n;
        REQ(n == spot && val(n->range_view().min()) == lo, "back from next");
      }
      if (p != space.begin()) {
        --p;
        REQ(val(p->range_view().max()) < lo, "previous of found");
      }
    }
  }
  void
  intersect(int f, u128 lo, u128 hi)
  {
    auto z = contents();
    std::pair<Space::iterator, Space::iterator> r;
    r = space.intersection(IPRange{});
    REQ(r.first == r.second, "intersection with an invalid range");
    if (g.flip())
      r = space.intersection(IPRange(mk(Any{f, lo}), mk(Any{f, hi})));
    else if (f == 4)
      r = space.intersection(IP4Range(ip4(lo), ip4(hi)));
    else
      r = space.intersection(IP6Range(ip6(lo), ip6(hi)));
    std::vector<Seg> want;
    for (auto const &s : z)
      if (s.lo.f == f && s.lo.v <= hi && lo <= s.hi.v)
        want.push_back(s);
    size_t n = 0;
    for (auto s = r.first; s != r.second; ++s, ++n)
      REQ(n < want.size() && val(s->range_view().min()) == want[n].lo && s->payload().get() == want[n].v, "intersection item ", n);
    REQ_EQ(n, want.size(), "items in the intersection with v", f, " ", show(lo), " - ", show(hi));
    g.label("intersection", n > 1);
  }
  /// No exceptions in this range, or past its start.
  void
  unloose(int f, u128 lo, u128 hi, bool first_p)
  {
    auto s = first_p ? loose.lower_bound({f, lo}) : loose.upper_bound({f, lo});
    loose.erase(s, loose.upper_bound({f, hi}));
  }
  /// Exceptions where the payloads differ by now are over.
  void
  settle(int f)
  {
    for (auto s = loose.lower_bound({f, 0}); s != loose.end() && s->first == f;) {
      if (s->second == 0 || of(f).at(s->second) != of(f).at(s->second - 1))
        s = loose.erase(s);
      else
        ++s;
    }
  }
  void
  step()
  {
    int f         = g.flip() ? 6 : 4;
    auto [lo, hi] = range(f);
    int color     = 1 + int(g.draw(3));
    IPRange r(mk(Any{f, lo}), mk(Any{f, hi}));
    Map &m        = of(f);
    (f == 4 ? used4 : used6) = true;
    std::optional<Tracked> local(color);
    Tracked *payload = &*local;
    if (g.chance(10)) { // use what is in the space.
      auto spot = space.find(mk(Any{f, g.flip() ? lo : hi}));
      for (size_t k = spot != space.end() ? g.draw(3) : 0; k > 0 && spot != space.begin(); --k)
        --spot;
      if (spot != space.end()) {
        payload = &spot->payload();
        color   = payload->get();
        g.note("with the payload at ", val(spot->range_view().min()).f, " ", show(val(spot->range_view().min()).v));
      }
    }
    switch (g.weighted({6, 4, 3, 5, 2, 1, 1, 1})) {
    case 0:
      g.note("mark v", f, " ", show(lo), " - ", show(hi), " ", color);
      REQ(&space.mark(r, *payload) == &space, "result");
      m.apply(lo, hi, [&](int) { return color; });
      unloose(f, lo, hi, false);
      break;
    case 1:
      g.note("fill v", f, " ", show(lo), " - ", show(hi), " ", color);
      REQ(&space.fill(r, *payload) == &space, "result");
      m.apply(lo, hi, [&](int x) { return x < 0 ? color : x; });
      break;
    case 2:
      g.note("erase v", f, " ", show(lo), " - ", show(hi));
      REQ(&space.erase(r) == &space, "result");
      m.apply(lo, hi, [&](int) { return -1; });
      break;
    case 3: { // blend - set or clear bits, by different argument types.
      bool clear = g.flip();
      g.note("blend v", f, " ", show(lo), " - ", show(hi), clear ? " clear " : " set ", color);
      auto b = [clear](Tracked &lhs, int rhs) {
        int n = clear ? lhs.get() & ~rhs : lhs.get() | rhs;
        lhs   = Tracked(n);
        return n != 0;
      };
      if (g.flip())
        space.blend(r, payload->v, b);
      else if (f == 4)
        space.blend(IP4Range(ip4(lo), ip4(hi)), color, b);
      else
        space.blend(IP6Range(ip6(lo), ip6(hi)), color, b);
      unloose(f, lo, hi, true);
      if (hi != m.max && m.at(hi) >= 0)
        loose.emplace(f, hi + 1);
      m.apply(lo, hi, [&](int x) {
        int n = clear ? std::max(x, 0) & ~color : std::max(x, 0) | color;
        return n ? n : -1;
      });
      break;
    }
    case 4:
      intersect(f, lo, hi);
      break;
    case 5: { // change through an iterator.
      auto spot = space.find(mk(Any{f, lo}));
      if (spot != space.end()) {
        u128 a = val(spot->range_view().min()).v, b = val(spot->range_view().max()).v;
        g.note("change v", f, " ", show(a), " - ", show(b), " ", color);
        spot->payload() = Tracked(color);
        loose.emplace(f, a);
        if (b != m.max)
          loose.emplace(f, b + 1);
        m.apply(a, b, [&](int) { return color; });
      }
      break;
    }
    case 6: // nothing must happen
      g.note("invalid range");
      space.mark(IPRange{}, Tracked(7)).fill(IPRange{}, Tracked(7)).erase(IPRange{});
      space.blend(IPRange{}, 7, [](Tracked &, int) { return true; });
      REQ(space.find(IPAddr{}) == space.end(), "find of invalid address");
      break;
    case 7:
      if (g.chance(20)) {
        g.note("clear");
        local.reset();
        space.clear();
        m4 = Map{Fam<4>::MAX};
        m6 = Map{Fam<6>::MAX};
        loose.clear();
        REQ_EQ(Tracked::live, 0L, "payloads alive after clear");
        REQ(space.empty() && space.count() == 0 && space.begin() == space.end(), "cleared");
      }
      break;
    }
  }
};
} // namespace

PROPERTY(history, 1, "both families used, and at least 2 ranges overlapped or adjoined others")
{
  g.scaled();
  Tracked::live = 0;
  {
    World w{g};
    for (int i = 0; i < 4; ++i) {
      w.pool4.push_back(gen_value(g, 4));
      w.pool6.push_back(gen_value(g, 6));
    }
    if (g.flip())
      w.pool6[0] = (u128(0xFFFF) << 32) | w.pool4[0]; // same bits, as mapped
    if (g.flip())
      w.pool6[1] = w.pool4[1];
    size_t n_bulk = g.bulk(3, 3000);
    if (n_bulk) { // start with a large space
      for (int f : {4, 6}) {
        if (g.chance(30))
          continue;
        u128 base = gen_value(g, f) & ~u128(0xFFFFF), len = g.draw(7);
        bool back = g.flip();
        int mod   = 2 + int(g.draw(2));
        for (size_t i = 0; i < n_bulk; ++i) {
          size_t k = back ? n_bulk - 1 - i : i;
          u128 lo  = base + 8 * k;
          w.of(f).apply(lo, lo + len, [&](int) { return int(k % mod); });
          w.space.fill(IPRange(mk(Any{f, lo}), mk(Any{f, lo + len})), Tracked(int(k % mod)));
        }
        auto &pool = f == 4 ? w.pool4 : w.pool6;
        pool.push_back(base + 8 * g.draw(n_bulk - 1));
        pool.push_back(base + 8 * n_bulk);
        (f == 4 ? w.used4 : w.used6) = true;
      }
      w.check();
    }
    for (unsigned i = 0; g.more(12, i, n_bulk ? 8 : 60); ++i) {
      w.step();
      if (g.chance(30))
        w.check();
      int f = g.flip() ? 6 : 4;
      w.lookup(f, w.point(f));
    }
    w.check();
    for (int f : {4, 6}) {
      for (auto const &[v, p] : w.of(f).segs) {
        w.lookup(f, v);
        w.lookup(f, (v - 1) & max_of(f));
      }
      w.lookup(f, max_of(f));
    }
    g.nontrivial(w.used4 && w.used6 && w.space.count() > 3);
    g.label("over 8 ranges", w.space.count() > 8);
    g.label("touches the limits", w.m4.at(0) >= 0 || w.m4.at(Fam<4>::MAX) >= 0 || w.m6.at(0) >= 0 || w.m6.at(MAX128) >= 0);
    // payload count is range count.
    REQ_EQ(Tracked::live, long(w.space.count()), "payloads alive");
  }
  REQ_EQ(Tracked::live, 0L, "payloads alive at the end");
}
