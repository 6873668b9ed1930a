// C01 - intrusive list against vectors.
#include "util.h"
#include "swoc/IntrusiveDList.h"
#include <algorithm>
#include <memory>
#include <vector>
using pbt::Src;

namespace
{
struct Item {
  int id;
  Item *_next = nullptr;
  Item *_prev = nullptr;
  // The links of another list.
  Item *_n2 = nullptr;
  Item *_p2 = nullptr;
  using Linkage  = swoc::IntrusiveLinkage<Item>;
  using Linkage2 = swoc::IntrusiveLinkage<Item, &Item::_n2, &Item::_p2>;
};
/// Links in the base class, as the base type.
struct Base {
  int id      = 0;
  Base *_next = nullptr;
  Base *_prev = nullptr;
  using Linkage = swoc::IntrusiveLinkage<Base>;
};
struct Derived : public Base {
  int more = 0;
};
template <typename Link, typename T> struct Kit {
  using List = swoc::IntrusiveDList<Link>;
  using Seq  = std::vector<T *>;

  static void
  check(List &l, Seq const &m, char const *what)
  {
    List const &c = l;
    REQ_EQ(l.count(), m.size(), what, ": count");
    REQ_EQ(l.empty(), m.empty(), what, ": empty");
    T *first = m.empty() ? nullptr : m.front(), *last = m.empty() ? nullptr : m.back();
    REQ(l.head() == first && c.head() == first, what, ": head");
    REQ(l.tail() == last && c.tail() == last, what, ": tail");
    // Links
    T *prev = nullptr;
    T *x    = l.head();
    for (T *v : m) {
      REQ(x == v, what, ": forward links");
      REQ(Link::prev_ptr(v) == prev, what, ": backward links");
      prev = v;
      x    = Link::next_ptr(v);
    }
    REQ(x == nullptr, what, ": end of forward links");
    // iteration
    size_t i = 0;
    for (T &v : l) {
      REQ(i < m.size() && &v == m[i], what, ": iteration at ", i);
      ++i;
    }
    REQ_EQ(i, m.size(), what, ": iteration length");
    i = 0;
    for (T const &v : c) {
      REQ(i < m.size() && &v == m[i], what, ": const iteration at ", i);
      ++i;
    }
    REQ_EQ(i, m.size(), what, ": const iteration length");
    auto spot = l.end();
    for (i = m.size(); i-- > 0;) {
      REQ(spot.has_prev() && spot.has_predecessor(), what, ": has_prev at ", i);
      auto was = spot;
      if (i & 1)
        REQ(spot-- == was, what, ": post decrement");
      else
        --spot;
      REQ(&*spot == m[i] && spot.operator->() == m[i], what, ": reverse iteration at ", i);
      REQ_EQ(spot.has_next(), true, what, ": has_next at ", i);
      REQ_EQ(spot.has_successor(), i + 1 < m.size(), what, ": has_successor at ", i);
    }
    REQ(spot == l.begin(), what, ": reverse iteration end");
    REQ(!spot.has_prev() && !spot.has_predecessor(), what, ": has_prev at begin");
    REQ(!l.end().has_next() && !l.end().has_successor(), what, ": has_next at end");
    auto cspot = c.end();
    for (i = m.size(); i-- > 0;) {
      auto was = cspot;
      if (i & 1)
        REQ(cspot-- == was, what, ": const post decrement");
      else
        --cspot;
      REQ(&*cspot == m[i], what, ": const reverse iteration at ", i);
    }
    REQ(cspot == c.begin(), what, ": const reverse iteration end");
    i = 0;
    for (cspot = c.begin(), spot = l.begin(); spot != l.end(); ++i) {
      REQ(cspot == spot, what, ": const and plain iterators");
      REQ(static_cast<T const *>(cspot++) == m[i], what, ": const post increment");
      REQ(static_cast<T *>(spot++) == m[i], what, ": post increment");
    }
    REQ(cspot == c.end(), what, ": const end");
  }
  static void
  history(Src &g)
  {
    size_t n_items = 1 + g.draw(14);
    size_t n_bulk  = g.bulk();
    std::vector<std::unique_ptr<T>> items;
    Seq loose;
    for (size_t i = 0; i < n_items; ++i) {
      items.emplace_back(new T);
      items.back()->id = int(i);
      loose.push_back(items.back().get());
    }
    List l[3];
    Seq m[3];
    unsigned middle = 0, bulk = 0;
    for (size_t i = 0; i < n_bulk; ++i) { // start with a large list.
      T *v  = new T;
      v->id = int(n_items + i);
      items.emplace_back(v);
      l[0].append(v);
      m[0].push_back(v);
    }
    auto at = [&](Seq &s) { return g.draw(s.size() - 1); };
    auto detach = [&](T *v) {
      REQ(Link::next_ptr(v) == nullptr && Link::prev_ptr(v) == nullptr, "removed item ", v->id, " is not detached");
      loose.push_back(v);
    };
    for (unsigned step = 0; g.more(25, step, n_bulk == 0 ? 120 : n_bulk < 3000 ? 30 : 8); ++step) {
      unsigned k = unsigned(g.draw(2)), j = (k + 1 + unsigned(g.draw(1))) % 3;
      auto &L = l[k];
      auto &M = m[k];
      auto take = [&]() -> T * {
        if (loose.empty())
          return nullptr;
        size_t i = at(loose);
        T *v     = loose[i];
        loose.erase(loose.begin() + i);
        if (g.flip()) // stale links are to be of no consequence
          Link::next_ptr(v) = Link::prev_ptr(v) = items[0].get();
        return v;
      };
      unsigned op = unsigned(g.draw(23));
      g.note("op ", op, " on ", k, "[", M.size(), "]");
      switch (op) {
      case 0:
        if (T *v = take()) {
          REQ(&L.prepend(v) == &L, "return");
          M.insert(M.begin(), v);
        }
        break;
      case 1:
      case 2:
        if (T *v = take()) {
          REQ(&L.append(v) == &L, "return");
          M.push_back(v);
        }
        break;
      case 3:
      case 4: // insert_after
        if (T *v = take()) {
          if (M.empty() || g.chance(10)) {
            if (g.flip())
              L.insert_after(L.end(), v);
            else
              L.insert_after(L.iterator_for(nullptr), v);
            M.push_back(v);
          } else {
            size_t i = at(M);
            g.note("after ", i);
            if (op == 3)
              L.insert_after(M[i], v);
            else
              L.insert_after(L.nth(unsigned(i)), v);
            middle += i > 0 && i + 1 < M.size();
            M.insert(M.begin() + i + 1, v);
          }
        }
        break;
      case 5:
      case 6:
        if (T *v = take()) {
          if (M.empty() || g.chance(10)) {
            L.insert_before(L.end(), v);
            M.push_back(v);
          } else {
            size_t i = at(M);
            g.note("before ", i);
            if (op == 5)
              L.insert_before(M[i], v);
            else
              L.insert_before(L.iterator_for(M[i]), v);
            middle += i > 0 && i + 1 < M.size();
            M.insert(M.begin() + i, v);
          }
        }
        break;
      case 7: {
        T *v = L.take_head();
        REQ(v == (M.empty() ? nullptr : M.front()), "take_head");
        if (v) {
          M.erase(M.begin());
          detach(v);
        }
        break;
      }
      case 8: {
        T *v = L.take_tail();
        REQ(v == (M.empty() ? nullptr : M.back()), "take_tail");
        if (v) {
          M.pop_back();
          detach(v);
        }
        break;
      }
      case 9:
      case 10:
        if (!M.empty()) {
          size_t i = at(M);
          T *v = M[i], *nv = i + 1 < M.size() ? M[i + 1] : nullptr;
          g.note("erase ", i);
          if (op == 9) {
            REQ(L.erase(v) == nv, "erase result");
          } else {
            auto r = L.erase(L.iterator_for(v));
            REQ(static_cast<T *>(r) == nv, "erase result");
            auto b = r;
            if (i > 0)
              REQ(&*--b == M[i - 1], "decrement of erase result");
          }
          middle += i > 0 && i + 1 < M.size();
          M.erase(M.begin() + i);
          detach(v);
        }
        break;
      case 11:
      case 12: { // range
        size_t a = g.draw(M.size()), b = a + g.draw(M.size() - a);
        g.note("erase ", a, "..", b);
        auto sa = L.iterator_for(a < M.size() ? M[a] : nullptr), sb = L.iterator_for(b < M.size() ? M[b] : nullptr);
        auto r = L.erase(sa, sb);
        REQ(r == sb, "erase range result");
        Seq gone(M.begin() + a, M.begin() + b);
        M.erase(M.begin() + a, M.begin() + b);
        for (T *v : gone)
          detach(v);
        if (!M.empty() && a > 0)
          REQ(&*--r == M[a - 1], "decrement of erase range result");
        middle += b > a + 1;
        break;
      }
      case 13: {
        unsigned n = unsigned(g.draw(M.size() + 2));
        auto spot  = L.nth(n);
        REQ(static_cast<T *>(spot) == (n < M.size() ? M[n] : nullptr), "nth");
        REQ_EQ(spot == L.end(), n >= M.size(), "nth and end");
        break;
      }
      case 14:
      case 15:
      case 16:
      case 17: { // split
        unsigned n = unsigned(g.draw(M.size() + 2));
        g.note("n ", n);
        bool take_p   = op & 1;
        bool prefix_p = op < 16;
        List r        = prefix_p ? take_p ? L.take_prefix(n) : L.split_prefix(n) : take_p ? L.take_suffix(n) : L.split_suffix(n);
        size_t got    = n <= M.size() ? n : take_p ? M.size() : 0;
        Seq mr;
        if (prefix_p) {
          mr.assign(M.begin(), M.begin() + got);
          M.erase(M.begin(), M.begin() + got);
        } else {
          mr.assign(M.end() - got, M.end());
          M.resize(M.size() - got);
        }
        check(r, mr, "split off");
        check(L, M, "after split");
        bulk += !mr.empty() && !M.empty();
        // put it somewhere.
        if (m[j].empty() && g.flip()) {
          l[j] = std::move(r);
          m[j] = mr;
          check(r, {}, "moved from");
        } else {
          l[j].append(r);
          m[j].insert(m[j].end(), mr.begin(), mr.end());
          check(r, {}, "appended");
        }
        break;
      }
      case 18:
        REQ(&L.append(l[j]) == &L, "return");
        bulk += !M.empty() && !m[j].empty();
        M.insert(M.end(), m[j].begin(), m[j].end());
        m[j].clear();
        break;
      case 19:
        REQ(&L.prepend(l[j]) == &L, "return");
        bulk += !M.empty() && !m[j].empty();
        M.insert(M.begin(), m[j].begin(), m[j].end());
        m[j].clear();
        break;
      case 20:
        if (!M.empty()) {
          size_t i = at(M);
          g.note("splice ", m[j].size(), " after ", i);
          if (g.flip())
            L.insert_after(M[i], l[j]);
          else
            L.insert_after(L.iterator_for(M[i]), l[j]);
          bulk += !m[j].empty();
          M.insert(M.begin() + i + 1, m[j].begin(), m[j].end());
          m[j].clear();
        }
        break;
      case 21:
        if (!M.empty()) {
          size_t i = at(M);
          g.note("splice ", m[j].size(), " before ", i);
          if (g.flip())
            L.insert_before(M[i], l[j]);
          else
            L.insert_before(L.iterator_for(M[i]), l[j]);
          bulk += !m[j].empty();
          M.insert(M.begin() + i, m[j].begin(), m[j].end());
          m[j].clear();
        }
        break;
      case 22: { // move
        List t(std::move(L));
        check(L, {}, "moved from");
        check(t, M, "moved to");
        if (g.flip()) {
          L = std::move(t);
          check(t, {}, "moved from");
          L = std::move(L);
        } else if (M.size() > 1) { // rotate
          T *v = t.take_head();
          M.erase(M.begin());
          t.append(v);
          M.push_back(v);
          L.append(t);
        } else {
          L.prepend(t);
        }
        break;
      }
      default: { // clear, or apply with removal.
        unsigned how = unsigned(g.draw(5));
        if (how == 0) {
          REQ(&L.clear() == &L, "return");
          for (T *v : M)
            loose.push_back(v);
          M.clear();
        } else if (how == 1) {
          Seq seen;
          L.apply([&](T *v) { seen.push_back(v); });
          REQ(seen == M, "apply by pointer");
          seen.clear();
          L.apply([&](T &v) { seen.push_back(&v); });
          REQ(seen == M, "apply by reference");
        } else if (how == 2) { // remove some during
          Seq seen, keep, gone;
          L.apply([&](T *v) {
            seen.push_back(v);
            if (v->id % 3 == 0) {
              L.erase(v);
              gone.push_back(v);
            } else
              keep.push_back(v);
          });
          REQ(seen == M, "apply with erase");
          M = keep;
          for (T *v : gone)
            detach(v);
        } else {
          for (size_t i = 0; i < items.size(); i += i < 20 || items.size() < 300 ? 1 : 1 + items.size() / 20) {
            auto &it = items[i];
            bool in  = std::find(M.begin(), M.end(), it.get()) != M.end();
            REQ_EQ(L.contains(it.get()), in, "contains ", it->id);
          }
        }
        break;
      }
      }
      check(l[k], m[k], "list");
      check(l[j], m[j], "other list");
      check(l[3 - k - j], m[3 - k - j], "third list");
    }
    g.nontrivial(middle >= 2 && bulk >= 1);
    g.label("spliced", bulk > 2);
  }
};
} // namespace

PROPERTY(history, 5, "two changes in the middle of a list and one transfer of part of a list")
{
  g.scaled();
  Kit<Item::Linkage, Item>::history(g);
}
PROPERTY(other_links, 2, "as for history, with the other links of the item")
{
  g.scaled();
  Kit<Item::Linkage2, Item>::history(g);
}
PROPERTY(rebind, 2, "as for history, with links of the base class rebound to the derived class")
{
  g.scaled();
  Kit<swoc::IntrusiveLinkageRebind<Derived, Base::Linkage>, Derived>::history(g);
}

// Items in two lists at once, and destroyed during apply.
PROPERTY(two_lists, 1, "at least 3 items, some erased from one of the lists")
{
  g.scaled();
  using A = swoc::IntrusiveDList<Item::Linkage>;
  using B = swoc::IntrusiveDList<Item::Linkage2>;
  A a;
  B b;
  std::vector<Item *> ma, mb;
  size_t n = g.draw(12);
  for (size_t i = 0; i < n; ++i) {
    Item *v = new Item{int(i)};
    a.append(v);
    ma.push_back(v);
    if (g.flip()) {
      b.append(v);
      mb.push_back(v);
    } else {
      b.prepend(v);
      mb.insert(mb.begin(), v);
    }
  }
  unsigned erased = 0;
  for (unsigned i = 0; g.more(3, i, 10) && !ma.empty(); ++i) {
    size_t k = g.draw(ma.size() - 1);
    if (g.flip()) {
      auto spot = std::find(mb.begin(), mb.end(), ma[k]);
      if (spot != mb.end()) {
        b.erase(*spot);
        mb.erase(spot);
        ++erased;
      }
    } else if (std::find(mb.begin(), mb.end(), ma[k]) != mb.end()) {
      Item *v = ma[k];
      a.erase(a.iterator_for(v));
      ma.erase(ma.begin() + k);
      a.prepend(v);
      ma.insert(ma.begin(), v);
      ++erased;
    }
    Kit<Item::Linkage, Item>::check(a, ma, "first list");
    Kit<Item::Linkage2, Item>::check(b, mb, "second list");
  }
  b.clear();
  size_t seen = 0;
  a.apply([&](Item *v) {
     ++seen;
     delete v;
   }).clear();
  REQ_EQ(seen, ma.size(), "all visited while deleting");
  REQ(a.empty() && a.count() == 0, "clear");
  g.nontrivial(n >= 3 && erased);
}
