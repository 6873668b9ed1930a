// M05 - Vectray is a sequence, whichever storage the elements are in.
#include "util.h"
#include "swoc/Vectray.h"
#include <memory_resource>
#include <algorithm>
using swoc::Vectray;
using swoc::MemSpan;
using pbt::Src;
using pbt::Tracked;

namespace
{
/// Memory resource that counts.
struct Counting : public std::pmr::memory_resource {
  size_t allocs = 0;
  long live     = 0;
  void *
  do_allocate(size_t n, size_t) override
  {
    ++allocs;
    ++live;
    return malloc(n);
  }
  void
  do_deallocate(void *p, size_t, size_t) override
  {
    --live;
    free(p);
  }
  bool
  do_is_equal(std::pmr::memory_resource const &that) const noexcept override
  {
    return this == &that;
  }
};

struct alignas(16) Wide : public Tracked {
  using Tracked::Tracked;
};
struct MoveOnly {
  std::unique_ptr<Tracked> p;
  MoveOnly() : p(new Tracked(0)) {}
  explicit MoveOnly(int n) : p(new Tracked(n)) {}
  MoveOnly(MoveOnly &&)            = default;
  MoveOnly &operator=(MoveOnly &&) = default;
};
template <typename T> struct Ops;
template <> struct Ops<int> {
  static int make(int n) { return n; }
  static int get(int const &t) { return t; }
};
template <> struct Ops<Tracked> {
  static Tracked make(int n) { return Tracked(n); }
  static int get(Tracked const &t) { return t.get(); }
};
template <> struct Ops<Wide> {
  static Wide make(int n) { return Wide(n); }
  static int get(Wide const &t) { return t.get(); }
};
template <> struct Ops<MoveOnly> {
  static MoveOnly make(int n) { return MoveOnly(n); }
  static int get(MoveOnly const &t) { return t.p->get(); }
};
template <> struct Ops<std::string> {
  // long enough to be dynamic for some, short for others
  static std::string
  make(int n)
  {
    return n == 0 ? std::string{} : std::to_string(n) + std::string(n % 3 ? 0 : 30, '.');
  }
  static int get(std::string const &s) { return s.empty() ? 0 : atoi(s.c_str()); }
};

template <typename T, typename V>
void
same(V &v, std::vector<int> const &m, size_t N, char const *when)
{
  V const &cv = v;
  REQ_EQ(v.size(), m.size(), when);
  REQ_EQ(v.empty(), m.empty(), when);
  size_t i = 0;
  for (auto &x : v) {
    REQ(i < m.size(), when);
    REQ_EQ(Ops<T>::get(x), m[i], when, " element ", i);
    REQ(reinterpret_cast<uintptr_t>(&x) % alignof(T) == 0, when, " alignment");
    ++i;
  }
  REQ_EQ(i, m.size(), when);
  i = 0;
  for (auto const &x : cv)
    REQ_EQ(Ops<T>::get(x), m[i++], when, " const iteration");
  REQ_EQ(i, m.size(), when);
  for (i = 0; i < m.size(); ++i) {
    REQ_EQ(Ops<T>::get(v[i]), m[i], when, " index");
    REQ(&cv[i] == &v[i], when);
    REQ(v.data() + i == &v[i] && cv.data() + i == &v[i], when, " data");
  }
  if (!m.empty()) {
    REQ(&v.front() == &v[0] && &cv.front() == &v[0], when);
    REQ(&v.back() == &v[m.size() - 1] && &cv.back() == &v[m.size() - 1], when);
  }
  MemSpan<T> s        = v;
  MemSpan<T const> cs = cv;
  REQ(s.count() == m.size() && (m.empty() || s.data() == &v[0]), when, " span");
  REQ(cs.count() == m.size() && (m.empty() || cs.data() == &v[0]), when, " span");
}

template <typename T, size_t N, bool PMR>
void
run(Src &g, char const *name)
{
  using A = std::conditional_t<PMR, std::pmr::polymorphic_allocator<T>, std::allocator<T>>;
  using V = Vectray<T, N, A>;
  using W = Vectray<T, N + 2, A>;
  constexpr bool COPY = std::is_copy_constructible_v<T>;
  long live0          = Tracked::live;
  Counting mr;
  unsigned steps = 0;
  size_t peak    = 0;
  bool crossed   = false;
  {
    auto alloc = [&]() -> A {
      if constexpr (PMR)
        return A(&mr);
      else
        return A{};
    };
    std::unique_ptr<V> v[2];
    std::vector<int> m[2];
    int next = 1;
    g.note(name, " N=", N, PMR ? " pmr" : "");
    for (int k = 0; k < 2; ++k) {
      if (g.chance(30)) {
        size_t n = g.draw(N + 3);
        if (PMR || g.flip()) {
          v[k].reset(new V(n, alloc()));
        } else {
          v[k].reset(new V(n));
        }
        m[k].assign(n, 0);
        if constexpr (std::is_same_v<T, int>)
          for (auto &x : *v[k])
            x = 0;
        g.note(" construct ", k, " with ", n);
      } else if (PMR) {
        v[k].reset(new V(alloc()));
      } else {
        v[k].reset(new V);
      }
      same<T>(*v[k], m[k], N, "construct");
      peak = std::max(peak, m[k].size());
    }
    bool forced   = false; // reserve or move could have forced dynamic.
    size_t n_bulk = N > 100 ? N + g.draw(6) - 3 : g.bulk(2);
    if (n_bulk) {
      int k = g.draw(1);
      while (m[k].size() < n_bulk) {
        crossed |= m[k].size() == N;
        v[k]->push_back(Ops<T>::make(next));
        m[k].push_back(next++);
      }
      same<T>(*v[k], m[k], N, "bulk");
      peak = std::max(peak, m[k].size());
      g.label("bulk");
    }
    while (g.more(12, steps, n_bulk < 1000 ? 30 : n_bulk < 3000 ? 10 : 3)) {
      ++steps;
      int k     = g.draw(1);
      auto &x   = *v[k];
      auto &xm  = m[k];
      bool full = xm.size() == N;
      switch (g.weighted({5, 5, 5, 4, 3, 2, 2, 2, 2, 2, 1})) {
      case 0: // copy in
        if constexpr (COPY) {
          g.note(" ", k, " push copy ", next);
          T t = Ops<T>::make(next);
          REQ(&x.push_back(t) == &x);
          REQ_EQ(Ops<T>::get(t), next, "source of copy changed");
          xm.push_back(next++);
          crossed |= full;
        }
        break;
      case 1: {
        g.note(" ", k, " push move ", next);
        T t = Ops<T>::make(next);
        x.push_back(std::move(t));
        if constexpr (std::is_base_of_v<Tracked, T>)
          REQ_EQ(t.get(), -1, "not moved");
        xm.push_back(next++);
        crossed |= full;
      } break;
      case 2: {
        g.note(" ", k, " emplace ", next);
        if constexpr (std::is_same_v<T, std::string>)
          REQ(&x.emplace_back(Ops<T>::make(next)) == &x);
        else
          REQ(&x.emplace_back(next) == &x);
        xm.push_back(next++);
        crossed |= full;
      } break;
      case 3:
        if (!xm.empty()) {
          g.note(" ", k, " pop");
          long l = Tracked::live;
          REQ(&x.pop_back() == &x);
          if constexpr (std::is_base_of_v<Tracked, T> || std::is_same_v<T, MoveOnly>)
            REQ_EQ(Tracked::live, l - 1, "pop must destroy one");
          xm.pop_back();
        }
        break;
      case 4: // push own element
        if constexpr (COPY) {
          if (!xm.empty()) {
            size_t i = g.draw(xm.size() - 1);
            g.note(" ", k, " push element ", i);
            if (g.flip())
              x.push_back(x[i]);
            else
              x.emplace_back(x[i]);
            xm.push_back(int(xm[i]));
            crossed |= full;
          }
        }
        break;
      case 5: {
        size_t n = g.draw(2 * N + 4);
        g.note(" ", k, " reserve ", n);
        x.reserve(n);
        forced |= n > N;
        if (n >= xm.size() && !xm.empty() && n > N) {
          // no reallocation until past n.
          auto p = x.data();
          while (xm.size() < n && g.flip()) {
            x.push_back(Ops<T>::make(next));
            xm.push_back(next++);
          }
          REQ(x.data() == p, "reserved storage not used");
        }
      } break;
      case 6: { // assign element
        if (!xm.empty()) {
          size_t i = g.draw(xm.size() - 1);
          x[i]     = Ops<T>::make(next);
          xm[i]    = next++;
        }
      } break;
      case 7: // move construct
        g.note(" ", k, " move construct");
        if (g.flip()) {
          v[k] = std::make_unique<V>(V(std::move(x)));
        } else if (PMR || g.flip()) {
          std::unique_ptr<V> t{new V(std::move(x), alloc())};
          v[k] = std::move(t);
        } else {
          v[k] = std::make_unique<V>(std::move(x));
        }
        break;
      case 8: { // through a different size
        g.note(" ", k, " move through other size");
        if constexpr (!PMR) {
          W w(std::move(x));
          same<T>(w, xm, N + 2, "moved to other size");
          v[k] = std::make_unique<V>(std::move(w));
        } else {
          W w(std::move(x));
          same<T>(w, xm, N + 2, "moved to other size");
        }
        if (PMR) {
          xm.clear();
          v[k].reset(new V(alloc()));
        }
      } break;
      case 9: // copy
        if constexpr (COPY) {
          g.note(" ", k, " copy");
          if (g.flip()) {
            V c(x);
            same<T>(c, xm, N, "copy");
            same<T>(x, xm, N, "copied");
            c.push_back(Ops<T>::make(9999));
            if (!xm.empty())
              c[0] = Ops<T>::make(8888);
          } else {
            *v[1 - k] = x;
            m[1 - k]  = xm;
          }
        }
        break;
      case 10: // move assign
        g.note(" ", k, " move assign");
        *v[1 - k] = std::move(x);
        m[1 - k]  = xm;
        if (PMR)
          v[k].reset(new V(alloc()));
        else
          v[k].reset(new V);
        xm.clear();
        break;
      }
      same<T>(*v[0], m[0], N, "after step");
      same<T>(*v[1], m[1], N, "after step");
      peak = std::max({peak, m[0].size(), m[1].size()});
      if constexpr (std::is_base_of_v<Tracked, T> || std::is_same_v<T, MoveOnly>)
        REQ_EQ(Tracked::live - live0, long(m[0].size() + m[1].size()), "live elements");
      if (PMR && peak <= N && !forced)
        REQ_EQ(mr.allocs, 0u, "allocated memory although the elements fit");
    }
  }
  REQ_EQ(Tracked::live, live0, "elements leaked");
  REQ_EQ(mr.live, 0, "memory leaked");
  g.label("crossed to dynamic", crossed);
  g.label("pmr", PMR);
  g.nontrivial(crossed && steps > 3);
}
} // namespace

PROPERTY(vectray_history, 1, "an append crossed from embedded to dynamic storage, with more than three operations")
{
  g.scaled();
  switch (g.chance(1) ? 12 + g.draw(2) : g.draw(11)) {
  case 12:
    return run<Tracked, 255, false>(g, "Tracked");
  case 13:
    return run<int, 300, true>(g, "int");
  case 14:
    return run<std::string, 257, false>(g, "string");
  case 0:
    return run<Tracked, 1, false>(g, "Tracked");
  case 1:
    return run<Tracked, 4, false>(g, "Tracked");
  case 2:
    return run<std::string, 1, false>(g, "string");
  case 3:
    return run<std::string, 3, false>(g, "string");
  case 4:
    return run<int, 2, false>(g, "int");
  case 5:
    return run<int, 16, false>(g, "int");
  case 6:
    return run<MoveOnly, 2, false>(g, "MoveOnly");
  case 7:
    return run<Wide, 3, false>(g, "Wide");
  case 8:
    return run<Tracked, 2, true>(g, "Tracked");
  case 9:
    return run<int, 5, true>(g, "int");
  case 10:
    return run<MoveOnly, 1, true>(g, "MoveOnly");
  default:
    return run<Tracked, 7, false>(g, "Tracked");
  }
}

namespace
{
/// Element whose construction and copy can fail, moves do not.
struct Fragile : public Tracked {
  static long fuse; ///< Number of constructions until failure, negative for never.
  static int
  burn(int n)
  {
    if (fuse == 0) {
      fuse = -1;
      throw std::runtime_error("fragile");
    }
    if (fuse > 0)
      --fuse;
    return n;
  }
  explicit Fragile(int n = 0) : Tracked(burn(n)) {}
  Fragile(Fragile const &that) : Tracked(burn(that.get())) {}
  Fragile(Fragile &&that) noexcept : Tracked(std::move(that)) {}
  Fragile &
  operator=(Fragile const &that)
  {
    burn(0);
    Tracked::operator=(that);
    return *this;
  }
  Fragile &operator=(Fragile &&that) noexcept = default;
};
long Fragile::fuse = -1;
template <> struct Ops<Fragile> {
  static int get(Fragile const &t) { return t.get(); }
};

template <size_t N>
void
fragile(Src &g)
{
  using V      = Vectray<Fragile, N>;
  long live0   = Tracked::live;
  bool fired   = false;
  unsigned ops = 0;
  Fragile::fuse = -1;
  {
    V v;
    std::vector<int> m;
    int next = 1;
    while (g.more(10, ops, 30)) {
      ++ops;
      unsigned op = g.draw(8);
      Fragile const item(next);
      Fragile::fuse = g.flip() ? g.small(N + 3) : -1;
      g.note(" op ", op, " fuse ", Fragile::fuse);
      bool threw = false;
      try {
        switch (op) {
        case 0:
          v.push_back(item);
          m.push_back(next++);
          break;
        case 1: {
          Fragile t(next);
          v.push_back(std::move(t));
          m.push_back(next++);
        } break;
        case 2:
        case 3:
          v.emplace_back(next);
          m.push_back(next++);
          break;
        case 4:
          if (!m.empty()) {
            v.push_back(v[0]);
            m.push_back(int(m[0]));
          }
          break;
        case 5: {
          V c(v);
          Fragile::fuse = -1;
          same<Fragile>(c, m, N, "copy");
        } break;
        case 6: {
          V c(size_t(g.draw(N + 2)));
          Fragile::fuse = -1;
        } break;
        case 7: { // The target of a failed assignment is only usable to be destroyed.
          V c;
          auto fuse     = Fragile::fuse;
          Fragile::fuse = -1;
          for (size_t n = g.draw(N + 2); n > 0; --n)
            c.emplace_back(77);
          Fragile::fuse = fuse;
          c = v;
          Fragile::fuse = -1;
          same<Fragile>(c, m, N, "assigned");
        } break;
        case 8:
          if (!m.empty()) {
            v.pop_back();
            m.pop_back();
          }
          break;
        }
      } catch (std::runtime_error const &) {
        threw = true;
      }
      Fragile::fuse = -1;
      fired |= threw;
      same<Fragile>(v, m, N, threw ? "after an element failed" : "after step");
      REQ_EQ(Tracked::live - live0, long(m.size() + 1), "live elements", threw ? " after an element failed" : "");
    }
  }
  REQ_EQ(Tracked::live, live0, "elements leaked");
  g.nontrivial(fired);
}
} // namespace

PROPERTY(failing_elements, 1, "the construction or copy of an element threw")
{
  g.scaled();
  switch (g.draw(2)) {
  case 0:
    return fragile<1>(g);
  case 1:
    return fragile<3>(g);
  default:
    return fragile<6>(g);
  }
}

PROPERTY(pmr_allocator, 1, "elements exceed the embedded storage")
{
  g.scaled();
  // Dynamic storage comes from the allocator that was provided, only.
  Counting mr;
  {
    using V  = Vectray<int, 3, std::pmr::polymorphic_allocator<int>>;
    size_t n = g.draw(9);
    std::unique_ptr<V> v;
    unsigned how = g.draw(2);
    if (how == 0) {
      v.reset(new V(std::pmr::polymorphic_allocator<int>(&mr)));
      for (size_t i = 0; i < n; ++i)
        v->push_back(i);
    } else if (how == 1) {
      v.reset(new V(n, std::pmr::polymorphic_allocator<int>(&mr)));
    } else {
      V t;
      for (size_t i = 0; i < n; ++i)
        t.emplace_back(i);
      v.reset(new V(std::move(t), std::pmr::polymorphic_allocator<int>(&mr)));
      for (size_t i = 0; i < n; ++i)
        REQ_EQ((*v)[i], int(i));
    }
    REQ_EQ(v->size(), n);
    REQ_EQ(mr.live > 0, n > 3, "how ", how, " n ", n);
    g.nontrivial(n > 3);
  }
  REQ_EQ(mr.live, 0);
}
