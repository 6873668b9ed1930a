// C02 - intrusive hash map against a multimap.
#include "util.h"
#include "swoc/IntrusiveHashMap.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using pbt::Src;

namespace
{
struct Item {
  unsigned key = 0;
  int id       = 0;
  Item *_next  = nullptr;
  Item *_prev  = nullptr;
};
template <int MODE> struct Desc {
  static Item *&
  next_ptr(Item *v)
  {
    return v->_next;
  }
  static Item *&
  prev_ptr(Item *v)
  {
    return v->_prev;
  }
  static unsigned
  key_of(Item const *v)
  {
    return v->key;
  }
  static bool
  equal(unsigned a, unsigned b)
  {
    return a == b;
  }
  static size_t
  hash_of(unsigned k)
  {
    switch (MODE) {
    case 0:
      return k;
    case 1: // everything collides.
      return 0;
    case 2: // pairs collide
      return k / 2;
    default: // scattered over the whole range
      return k * 0x9E3779B97F4A7C15ull;
    }
  }
};
struct Name {
  std::string name;
  Name *_next = nullptr;
  Name *_prev = nullptr;
};
struct NameDesc {
  static Name *&
  next_ptr(Name *v)
  {
    return v->_next;
  }
  static Name *&
  prev_ptr(Name *v)
  {
    return v->_prev;
  }
  static std::string_view
  key_of(Name const *v)
  {
    return v->name;
  }
  static bool
  equal(std::string_view a, std::string_view b)
  {
    return a == b;
  }
  static size_t
  hash_of(std::string_view k)
  {
    return k.size();
  }
};

template <int MODE>
void
history(Src &g)
{
  using D   = Desc<MODE>;
  using Map = swoc::IntrusiveHashMap<D>;
  std::vector<std::unique_ptr<Item>> items;
  unsigned n_keys = 1 + unsigned(g.draw(g.flip() ? 4 : 40));
  std::unique_ptr<Map> map;
  switch (g.draw(2)) {
  case 0:
    map.reset(new Map);
    REQ_EQ(map->bucket_count(), size_t(7), "default bucket count");
    break;
  default: {
    size_t n = g.draw(40);
    map.reset(new Map(n));
    REQ(map->bucket_count() >= n && map->bucket_count() > 0, "bucket count ", map->bucket_count(), " for ", n);
    break;
  }
  }
  REQ_EQ(int(map->get_expansion_policy()), int(Map::AVERAGE), "default policy");
  REQ_EQ(map->get_expansion_limit(), size_t(4), "default limit");
  auto policy  = Map::AVERAGE;
  size_t limit = 4;
  if (g.chance(70)) {
    policy = g.pick({Map::MANUAL, Map::AVERAGE, Map::MAXIMUM});
    limit  = g.draw(5);
    map->set_expansion_policy(policy);
    map->set_expansion_limit(limit);
  }
  std::set<Item *> in;
  std::map<unsigned, std::vector<Item *>> by_key;
  std::vector<Item *> loose;
  unsigned dups = 0, erased = 0, expanded = 0;
  auto gen_key = [&] { return unsigned(g.draw(n_keys - 1)) * (g.chance(95) ? 1 : 7); };
  auto add     = [&](Item *v) {
    in.insert(v);
    by_key[v->key].push_back(v);
  };
  auto drop = [&](Item *v) {
    in.erase(v);
    auto &s = by_key[v->key];
    s.erase(std::find(s.begin(), s.end(), v));
    if (s.empty())
      by_key.erase(v->key);
    loose.push_back(v);
    ++erased;
  };
  auto order = [&] {
    std::vector<Item *> r;
    for (Item &v : *map)
      r.push_back(&v);
    return r;
  };
  auto check = [&](char const *what) {
    Map const &c = *map;
    REQ_EQ(map->count(), in.size(), what, ": count");
    std::vector<Item *> all = order();
    REQ_EQ(all.size(), in.size(), what, ": iteration length");
    std::set<unsigned> done;
    for (size_t i = 0; i < all.size(); ++i) {
      REQ(in.count(all[i]), what, ": item ", all[i]->id, " found by iteration");
      if (i == 0 || all[i]->key != all[i - 1]->key)
        REQ(done.insert(all[i]->key).second, what, ": key ", all[i]->key, " is not contiguous");
    }
    REQ(std::set<Item *>(all.begin(), all.end()).size() == all.size(), what, ": duplicates in iteration");
    size_t i = 0;
    for (Item const &v : c)
      REQ(&v == all[i++], what, ": const iteration");
    // backwards
    auto spot = map->end();
    for (i = all.size(); i-- > 0;)
      REQ(&*--spot == all[i], what, ": reverse iteration");
    REQ(spot == map->begin(), what, ": reverse iteration end");
    for (unsigned k = 0; k < n_keys + 1; ++k) {
      auto m = by_key.find(k);
      auto f = map->find(k);
      auto r = map->equal_range(k);
      auto q = c.equal_range(k);
      if (m == by_key.end()) {
        REQ(f == map->end(), what, ": key ", k, " found");
        REQ(c.find(k) == c.end(), what, ": key ", k, " found in const");
        REQ(r.begin() == r.end(), what, ": range for missing key ", k);
        REQ(q.begin() == q.end(), what, ": const range for missing key ", k);
      } else {
        REQ(f != map->end() && f->key == k, what, ": key ", k, " not found");
        REQ(c.find(k) == f, what, ": const find");
        REQ(r.begin() == f && q.begin() == f, what, ": range starts at found for ", k);
        std::set<Item *> got;
        std::vector<Item *> seq;
        for (Item &v : r) {
          REQ(got.insert(&v).second, what, ": repeats in range");
          seq.push_back(&v);
        }
        REQ(got == std::set<Item *>(m->second.begin(), m->second.end()), what, ": range of key ", k, " has ", got.size(), " of ",
            m->second.size());
        REQ(seq == m->second, what, ": range of key ", k, " is not in order of insertion"); // as for a multimap.
        size_t n = 0;
        for (Item const &v : q) {
          REQ(got.count(const_cast<Item *>(&v)), what, ": const range");
          ++n;
        }
        REQ_EQ(n, got.size(), what, ": const range length");
        typename Map::const_range qr(r);
        REQ(qr.begin() == r.begin() && qr.end() == r.end(), what, ": range conversion");
      }
    }
    for (auto &it : items) {
      Item *v   = it.get();
      auto f    = map->find(v);
      bool in_p = in.count(v) != 0;
      REQ_EQ(f != map->end(), in_p, what, ": find of item ", v->id);
      REQ_EQ(c.find((Item const *)v) != c.end(), in_p, what, ": const find of item ", v->id);
      if (in_p) {
        REQ(&*f == v, what, ": wrong item found");
        REQ(&*map->iterator_for(v) == v && &*c.iterator_for(v) == v, what, ": iterator_for");
      }
    }
  };
  check("start");
  size_t n_bulk = MODE == 0 || MODE == 3 ? g.bulk(2, 66000) : 0;
  if (n_bulk) {
    if (g.chance(20))
      n_bulk = std::min(n_bulk, size_t(300)), n_keys = 0; // all the same.
    if (n_bulk > 3000 && policy != Map::AVERAGE) // The chains get too long otherwise.
      n_bulk = 3000;
    size_t dup = n_keys ? 1 + g.draw(2) : n_bulk;
    n_keys = unsigned(n_bulk / dup);
    for (size_t i = 0; i < n_bulk; ++i) {
      items.emplace_back(new Item);
      Item *v = items.back().get();
      v->id   = int(items.size());
      v->key  = unsigned(i % n_keys);
      map->insert(v);
      add(v);
    }
    check("bulk");
  }
  unsigned big = n_bulk > 3000 ? 3 : n_bulk ? 12 : g.chance(15) ? 120 : 40;
  for (unsigned step = 0; g.more(20, step, big); ++step) {
    unsigned op = unsigned(g.weighted({14, 3, 3, 3, 2, 1, 1, 1, 1}));
    switch (op) {
    case 0: {
      Item *v;
      if (!loose.empty() && g.flip()) {
        size_t i = g.draw(loose.size() - 1);
        v        = loose[i];
        loose.erase(loose.begin() + i);
      } else {
        if (items.size() > 80 + n_bulk)
          continue;
        items.emplace_back(new Item);
        v     = items.back().get();
        v->id = int(items.size());
      }
      v->key = gen_key();
      g.note("insert ", v->id, " key ", v->key);
      dups += by_key.count(v->key);
      size_t was = map->bucket_count();
      map->insert(v);
      add(v);
      size_t now   = map->bucket_count();
      size_t chain = 0, keys = 0;
      for (auto &kv : by_key)
        if (D::hash_of(kv.first) % was == D::hash_of(v->key) % was) {
          chain += kv.second.size();
          ++keys;
        }
      expanded += now > was;
      REQ(now >= was, "insert reduced bucket count");
      if (policy == Map::MANUAL || (policy == Map::AVERAGE && in.size() <= was * limit) ||
          (policy == Map::MAXIMUM && (chain <= limit || keys < 2)))
        REQ(now == was, "policy ", int(policy), " limit ", limit, ": expanded from ", was, " with ", in.size(), " items, chain ",
            chain);
      if ((policy == Map::AVERAGE && in.size() / was > limit) || (policy == Map::MAXIMUM && chain > limit && keys > 1))
        REQ(now > was, "policy ", int(policy), " limit ", limit, ": not expanded from ", was, " with ", in.size(), " items, chain ",
            chain);
      break;
    }
    case 1: // by item
      if (!items.empty()) {
        Item *v   = items[g.draw(items.size() - 1)].get();
        bool in_p = in.count(v);
        g.note("erase ", v->id, " ", in_p);
        REQ_EQ(map->erase(v), in_p, "erase of item ", v->id);
        if (in_p) {
          REQ(!v->_next && !v->_prev, "erased item is not detached");
          drop(v);
        }
      }
      break;
    case 2: // by position
      if (!in.empty()) {
        auto all = order();
        size_t i = g.draw(all.size() - 1);
        g.note("erase at ", i);
        auto r = map->erase(map->iterator_for(all[i]));
        REQ(i + 1 < all.size() ? r != map->end() && &*r == all[i + 1] : r == map->end(), "erase result");
        drop(all[i]);
        all.erase(all.begin() + i);
        REQ(order() == all, "order after erase");
      }
      break;
    case 3: { // by key
      unsigned k = gen_key();
      g.note("erase key ", k);
      auto r = map->equal_range(k);
      auto e = r.end();
      std::vector<Item *> gone;
      if (by_key.count(k))
        gone = by_key[k];
      auto x = g.flip() ? map->erase(r) : map->erase(r.begin(), r.end());
      REQ(x == e, "erase of range result");
      for (Item *v : gone)
        drop(v);
      REQ(map->find(k) == map->end(), "key found after erasing it");
      break;
    }
    case 4: { // range
      auto all = order();
      size_t a = g.draw(all.size()), b = a + g.draw(all.size() - a);
      g.note("erase ", a, "..", b, " of ", all.size());
      auto it = [&](size_t i) { return i < all.size() ? map->iterator_for(all[i]) : map->end(); };
      auto r  = map->erase(it(a), it(b));
      REQ(r == it(b), "erase of range result");
      for (size_t i = a; i < b; ++i)
        drop(all[i]);
      all.erase(all.begin() + a, all.begin() + b);
      REQ(order() == all, "order after range erase");
      break;
    }
    case 5: {
      size_t was = map->bucket_count();
      map->expand();
      REQ(map->bucket_count() > was, "expand");
      REQ_EQ(int(map->get_expansion_policy()), int(policy), "policy after expand");
      ++expanded;
      g.note("expand");
      break;
    }
    case 6:
      policy = g.pick({Map::MANUAL, Map::AVERAGE, Map::MAXIMUM});
      limit  = g.draw(6);
      g.note("policy ", int(policy), " ", limit);
      REQ(&map->set_expansion_policy(policy) == map.get(), "return");
      REQ(&map->set_expansion_limit(limit) == map.get(), "return");
      REQ_EQ(int(map->get_expansion_policy()), int(policy), "policy");
      REQ_EQ(map->get_expansion_limit(), limit, "limit");
      break;
    case 7:
      if (g.chance(30)) {
        g.note("clear");
        size_t was = map->bucket_count();
        for (auto &it : items) // the values aren't touched by clear.
          it->_next = it->_prev = reinterpret_cast<Item *>(8);
        map->clear();
        for (Item *v : in)
          loose.push_back(v);
        in.clear();
        by_key.clear();
        REQ_EQ(map->bucket_count(), was, "buckets after clear");
      } else if (g.flip()) { // apply, erasing
        std::vector<Item *> gone;
        map->apply([&](Item *v) {
          if (v->id % 2) {
            REQ(map->erase(v), "erase in apply");
            gone.push_back(v);
          }
        });
        for (Item *v : gone)
          drop(v);
      } else {
        std::vector<Item *> seen;
        map->apply([&](Item &v) { seen.push_back(&v); });
        REQ(seen == order(), "apply");
      }
      break;
    case 8: {
      g.note("move");
      auto all = order();
      std::unique_ptr<Map> n(new Map(std::move(*map)));
      REQ_EQ(map->count(), size_t(0), "moved from");
      map = std::move(n);
      REQ(order() == all, "order after move");
      break;
    }
    }
    check("after change");
    if (map->bucket_count() > 500) // keep expansion in reason, it's exponential if the hash is poor.
      break;
  }
  g.nontrivial(dups && erased >= 2 && in.size() > 1);
  g.label("expanded", expanded);
}
} // namespace

PROPERTY(distinct_hash, 4, "duplicate keys, 2 erasures, and several items remain")
{
  g.scaled();
  history<0>(g);
}
PROPERTY(same_hash, 3, "duplicate keys, 2 erasures, and several items remain")
{
  g.scaled();
  history<1>(g);
}
PROPERTY(paired_hash, 3, "duplicate keys, 2 erasures, and several items remain")
{
  g.scaled();
  history<2>(g);
}
PROPERTY(scattered_hash, 2, "duplicate keys, 2 erasures, and several items remain")
{
  g.scaled();
  history<3>(g);
}

// String keys, destruction by apply.
PROPERTY(names, 1, "an empty name or a duplicate")
{
  g.scaled();
  swoc::IntrusiveHashMap<NameDesc> map(g.draw(8));
  std::multimap<std::string, Name *> m;
  size_t n  = g.draw(40);
  bool hard = false;
  for (size_t i = 0; i < n; ++i) {
    Name *v = new Name{g.str("ab", 4, 2)};
    hard |= v->name.empty() || m.count(v->name);
    map.insert(v);
    m.emplace(v->name, v);
  }
  g.nontrivial(hard);
  REQ_EQ(map.count(), m.size(), "count");
  for (auto &[k, v] : m) {
    auto spot = map.find(std::string_view(k));
    REQ(spot != map.end() && spot->name == k, "find ", k);
    auto r   = map.equal_range(std::string_view(k));
    size_t c = 0;
    for (auto &x : r) {
      REQ_EQ(x.name, k, "range");
      ++c;
    }
    REQ_EQ(c, m.count(k), "range for ", k);
  }
  for (unsigned i = 0; i < 8; ++i) {
    auto k = g.str("abc", 5, 2);
    REQ_EQ(map.find(std::string_view(k)) != map.end(), m.count(k) != 0, "find ", k);
  }
  size_t c = 0;
  map.apply([&](Name *v) {
    ++c;
    delete v;
  });
  REQ_EQ(c, m.size(), "apply to delete");
  map.clear();
  REQ(map.count() == 0 && map.begin() == map.end(), "clear");
}
