// M04 - object pools never hand out a live object, arenas serve as memory resources.
#include "util.h"
#include "swoc/MemArena.h"
#include <memory_resource>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <list>
#include <functional>
using swoc::MemArena;
using swoc::FixedArena;
using swoc::MemSpan;
using pbt::Src;
using pbt::Tracked;

namespace
{
template <size_t PAD, size_t ALIGN> struct alignas(ALIGN) Obj : public Tracked {
  unsigned char pad[PAD];
  int check;
  explicit Obj(int n) : Tracked(n), check(n) { memset(pad, n, PAD); }
  Obj(int n, std::string const &s) : Obj(n + int(s.size())) {}
  Obj() : Obj(77) {}
  void
  verify(int n, char const *when) const
  {
    REQ_EQ(this->get(), n, when);
    REQ_EQ(check, n, when);
    for (auto c : pad)
      REQ_EQ(int(c), n & 0xFF, when);
  }
};

template <typename T>
void
run(Src &g)
{
  long live0 = Tracked::live;
  struct Live {
    T *p;
    int n;
    unsigned pool;
  };
  std::vector<Live> live;
  unsigned steps = 0, reused = 0, destroyed = 0;
  {
    MemArena arena{g.draw(2000)};
    FixedArena<T> pool_a{arena}, pool_b{arena};
    FixedArena<T> *pools[] = {&pool_a, &pool_b};
    std::vector<std::set<void *>> dead(2); // storage in the free list of each pool.
    std::vector<MemSpan<void>> other;
    REQ(&pool_a.arena() == &arena);
    int next = 1;
    size_t n_bulk = g.bulk(2, 3000); // to start with.
    std::set<T *> all;
    for (size_t i = 0; i < n_bulk; ++i) {
      int n = next++ % 200;
      T *t  = pool_a.make(n);
      REQ(reinterpret_cast<uintptr_t>(t) % alignof(T) == 0, "alignment");
      REQ(all.insert(t).second, "storage of a live object given out");
      live.push_back({t, n, 0});
    }
    for (auto spot = all.begin(); n_bulk && std::next(spot) != all.end(); ++spot)
      REQ(*spot + 1 <= *std::next(spot), "storage of a live object given out");
    if (n_bulk) {
      size_t keep = g.draw(20);
      while (live.size() > keep) {
        auto l = live.back();
        l.p->verify(l.n, "bulk");
        pool_a.destroy(l.p);
        dead[0].insert(l.p);
        live.pop_back();
      }
      g.label("many objects");
      size_t n = g.draw(n_bulk - keep), sz = arena.size();
      while (n-- > 0) {
        T *t = pool_a.make(5);
        REQ_EQ(dead[0].erase(t), 1u, "free storage not reused");
        live.push_back({t, 5, 0});
        ++reused;
      }
      REQ_EQ(arena.size(), sz, "arena allocation although there is free storage");
    }
    while (g.more(20, steps, n_bulk ? 20 : 60)) {
      ++steps;
      unsigned k = g.chance(20);
      auto &pool = *pools[k];
      switch (g.weighted({8, 6, 2, 1, 1})) {
      case 0: {
        size_t sz = arena.size();
        T *t;
        int n = next++ % 200;
        switch (g.draw(2)) {
        case 0:
          t = pool.make(n);
          break;
        case 1:
          t = pool.make(n, std::string("abc"));
          n += 3;
          break;
        default:
          t = pool.make();
          n = 77;
          break;
        }
        g.note("pool ", k, " make ", n);
        REQ(reinterpret_cast<uintptr_t>(t) % alignof(T) == 0, "alignment");
        for (auto &l : live)
          REQ(t + 1 <= l.p || l.p + 1 <= t, "storage of a live object given out");
        for (auto &s : other)
          REQ(static_cast<void *>(t + 1) <= s.data() || s.data_end() <= static_cast<void *>(t), "storage in use elsewhere");
        REQ(arena.contains(t) && arena.contains(reinterpret_cast<char *>(t + 1) - 1), "not in the arena");
        if (!dead[k].empty()) {
          REQ_EQ(dead[k].count(t), 1u, "free storage not reused");
          REQ_EQ(arena.size(), sz, "arena allocation although there is free storage");
          dead[k].erase(t);
          ++reused;
        } else {
          REQ_EQ(arena.size(), sz + sizeof(T), "arena allocation");
        }
        t->verify(n, "make");
        live.push_back({t, n, k});
      } break;
      case 1:
        if (!live.empty()) {
          size_t i = g.draw(live.size() - 1);
          auto l   = live[i];
          g.note("pool ", l.pool, " destroy ", l.n);
          l.p->verify(l.n, "before destroy");
          long c = Tracked::live;
          pools[l.pool]->destroy(l.p);
          REQ_EQ(Tracked::live, c - 1, "destroy");
          dead[l.pool].insert(l.p);
          live.erase(live.begin() + i);
          ++destroyed;
        }
        break;
      case 2: { // other use of the arena.
        size_t n = g.draw(100);
        auto s   = arena.alloc(n);
        memset(s.data(), 0xAA, n);
        other.push_back(s);
      } break;
      case 3:
        g.note("pool ", k, " clear");
        pool.clear();
        dead[k].clear();
        break;
      case 4:
        pool.destroy(nullptr);
        break;
      }
      for (auto &l : live)
        l.p->verify(l.n, "after step");
      REQ_EQ(Tracked::live - live0, long(live.size()), "live objects");
    }
    for (auto &l : live)
      pools[l.pool]->destroy(l.p);
  }
  REQ_EQ(Tracked::live, live0);
  g.label("reuse", reused > 0);
  g.label("reuse 3+", reused > 2);
  g.nontrivial(reused > 0 && destroyed > 1);
}
} // namespace

PROPERTY(fixed_arena, 3, "storage was reused after at least two destructions")
{
  g.scaled();
  switch (g.draw(3)) {
  case 0:
    return run<Obj<1, 8>>(g);
  case 1:
    return run<Obj<60, 8>>(g);
  case 2:
    return run<Obj<5, 16>>(g);
  default:
    return run<Obj<100, 64>>(g);
  }
}

namespace
{
// Objects that make and destroy other objects of the same pool in their constructor and destructor.
struct Tree;
struct World {
  MemArena arena{200};
  FixedArena<Tree> pool{arena};
  std::set<Tree *> live;    // constructed, being constructed, or being destructed.
  std::set<Tree *> dead;    // destroyed, storage must be in the pool.
  std::set<Tree *> failed;  // construction failed, the storage can be in the pool.
  std::vector<Tree *> made; // made by a destructor, owned here.
  unsigned n = 0, nested = 0, reused = 0, throws = 0;
};
struct Tree {
  World &w;
  unsigned long tag = 0x5a5a5a5a;
  std::vector<Tree *> kids;
  int on_death = 0;
  // @a shape: number of children at each level, @a fail: fail in the constructor at this depth.
  Tree(World &world, unsigned depth, unsigned width, int fail, int death) : w(world), on_death(death)
  {
    REQ(reinterpret_cast<uintptr_t>(this) % alignof(Tree) == 0, "alignment");
    REQ(w.arena.contains(this), "not in the arena");
    auto spot = w.live.lower_bound(this);
    REQ(spot == w.live.end() || this + 1 <= *spot, "storage of a live object given out");
    REQ(spot == w.live.begin() || *std::prev(spot) + 1 <= this, "storage of a live object given out");
    if (!w.failed.erase(this)) {
      bool was = w.dead.erase(this) != 0;
      REQ(was || w.dead.empty(), "free storage not reused");
      w.reused += was;
    }
    w.live.insert(this);
    ++w.n;
    if (depth > 0 && w.n < 200) {
      for (unsigned i = 0; i < width; ++i) {
        ++w.nested;
        try {
          kids.push_back(w.pool.make(std::ref(w), depth - 1, width, fail - 1, i == 0 ? death : 0));
        } catch (int) {
          this->cleanup();
          throw;
        }
      }
    }
    if (fail == 0) {
      ++w.throws;
      this->cleanup();
      throw 1;
    }
  }
  void
  drop()
  {
    for (auto t : kids) {
      REQ(w.live.count(t) && t->tag == 0x5a5a5a5a, "child is gone");
      ++w.nested;
      w.pool.destroy(t);
    }
    kids.clear();
  }
  void
  cleanup() // construction failed
  {
    drop();
    w.live.erase(this);
    w.failed.insert(this);
    tag = 0;
  }
  ~Tree()
  {
    REQ(tag == 0x5a5a5a5a && w.live.count(this), "destroyed while not live");
    if (on_death == 1 && w.n < 200) { // storage must not be this.
      ++w.nested;
      w.made.push_back(w.pool.make(std::ref(w), 0u, 0u, -1, 0));
    }
    drop();
    if (on_death == 2 && w.n < 200) {
      ++w.nested;
      w.made.push_back(w.pool.make(std::ref(w), 1u, 2u, -1, 0));
    }
    REQ(tag == 0x5a5a5a5a, "changed by a nested operation");
    tag = 0;
    w.live.erase(this);
    w.dead.insert(this);
  }
};
} // namespace

PROPERTY(nested, 1, "storage was reused, and at least two objects were made or destroyed by other objects")
{
  g.scaled();
  World w;
  std::vector<Tree *> roots;
  unsigned step = 0;
  for (; g.more(12, step, 30); ++step) {
    if (roots.empty() || g.chance(55)) {
      unsigned depth = unsigned(g.draw(2)), width = unsigned(g.draw(3));
      int fail  = g.chance(15) ? int(g.draw(2)) : -1;
      int death = int(g.draw(2));
      g.note("make depth ", depth, " width ", width, " fail at ", fail, " on death ", death);
      auto before = w.live.size();
      try {
        roots.push_back(w.pool.make(std::ref(w), depth, width, fail, death));
      } catch (int) {
        for (auto t : w.made) // made by the destructors of children.
          before += 1 + t->kids.size();
        REQ_EQ(w.live.size(), before, "live after failure");
      }
    } else {
      size_t i = g.draw(roots.size() - 1);
      g.note("destroy ", i);
      Tree *t = roots[i];
      roots.erase(roots.begin() + i);
      w.pool.destroy(t);
    }
    roots.insert(roots.end(), w.made.begin(), w.made.end());
    w.made.clear();
    for (auto t : w.live)
      REQ(t->tag == 0x5a5a5a5a, "live object changed");
    for (auto t : roots)
      REQ(w.live.count(t), "object is gone");
  }
  while (!roots.empty()) {
    Tree *t = roots.back();
    roots.pop_back();
    t->on_death = 0;
    w.pool.destroy(t);
    roots.insert(roots.end(), w.made.begin(), w.made.end());
    w.made.clear();
  }
  REQ(w.live.empty(), "left over");
  g.label("failed construction", w.throws > 0);
  g.nontrivial(w.reused > 0 && w.nested > 1);
}

PROPERTY(memory_resource, 1, "at least 5 container operations")
{
  g.scaled();
  MemArena arena{g.draw(500)};
  MemArena arena2;
  unsigned steps = 0;
  std::pmr::memory_resource *mr = &arena;
  REQ(mr->is_equal(arena) && !mr->is_equal(arena2) && !(*mr == arena2));
  {
    std::pmr::vector<int> v{&arena};
    std::pmr::map<int, int> map{&arena};
    std::pmr::list<std::pmr::string> lst{&arena};
    std::pmr::vector<long double> wide{&arena};
    std::vector<int> mv;
    std::map<int, int> mm;
    std::list<std::string> ml;
    auto inside = [&](void const *p) { REQ(arena.contains(p), "container memory is not in the arena"); };
    while (g.more(20, steps, 60)) {
      ++steps;
      switch (g.draw(6)) {
      case 0:
        v.push_back(steps);
        mv.push_back(steps);
        break;
      case 1: {
        int k = g.draw(20);
        map[k] = steps;
        mm[k]  = steps;
      } break;
      case 2: {
        int k = g.draw(20);
        REQ_EQ(map.erase(k), mm.erase(k));
      } break;
      case 3: {
        std::string s(g.draw(100), 'a' + steps % 26);
        lst.emplace_back(s.c_str());
        ml.push_back(s);
      } break;
      case 4:
        if (!ml.empty()) {
          ml.pop_front();
          lst.pop_front();
        }
        break;
      case 5:
        wide.push_back(steps);
        REQ(reinterpret_cast<uintptr_t>(&wide[0]) % alignof(long double) == 0, "alignment");
        break;
      case 6: {
        auto s = arena.alloc(g.draw(64));
        memset(s.data(), 0xEE, s.size());
      } break;
      }
      REQ(std::equal(v.begin(), v.end(), mv.begin(), mv.end()));
      REQ(map.size() == mm.size() && std::equal(map.begin(), map.end(), mm.begin(),
                                                [](auto &a, auto &b) { return a.first == b.first && a.second == b.second; }));
      REQ(lst.size() == ml.size() &&
          std::equal(lst.begin(), lst.end(), ml.begin(), [](auto &a, auto &b) { return std::string_view(a) == b; }));
      if (!v.empty())
        inside(v.data());
      for (auto &p : map)
        inside(&p);
      for (auto &s : lst) {
        inside(&s);
        inside(s.data());
      }
    }
  }
  g.nontrivial(steps >= 5);
}
