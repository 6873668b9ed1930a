// M03 - arena memory is disjoint, in bounds, and intact until released.
#include "util.h"
#include "swoc/MemArena.h"
#include "swoc/TextView.h"
#include <sanitizer/asan_interface.h>
#include <memory_resource>
#include <list>
#include <map>
using swoc::MemArena;
using swoc::MemSpan;
using swoc::TextView;
using pbt::Src;

namespace
{
struct alignas(32) Wide {
  char c[32];
};
struct Blob {
  int64_t a, b, c;
  Blob(int64_t x, int64_t y, int64_t z) : a(x), b(y), c(z) {}
};

struct Item {
  char *p;
  size_t n;
  unsigned char tag;
  void
  fill(unsigned char t)
  {
    tag = t;
    memset(p, t, n);
  }
  void
  verify(char const *when) const
  {
    for (size_t i = 0; i < n; ++i)
      REQ((unsigned char)(p[i]) == tag, "block of ", n, " damaged at ", i, " ", when);
  }
};

struct Model {
  std::unique_ptr<MemArena> arena;
  std::vector<char *> statics; ///< static blocks that came with this arena.
  std::vector<Item> active, frozen;
  size_t active_size = 0, frozen_size = 0;
  bool just_frozen = false;
};

/// Every block address and its extent.
using Blocks = std::vector<std::pair<char const *, size_t>>;

template <typename I>
Blocks
blocks(I b, I e)
{
  Blocks zret;
  unsigned guard = 0;
  for (; b != e; ++b) {
    REQ(++guard < 10000, "block list does not end");
    auto const &block = *b;
    zret.emplace_back(block.data(), (block.allocated_data_end() - block.data()) + block.remaining());
  }
  return zret;
}

struct World {
  Src &g;
  std::vector<Model> m;
  std::vector<std::unique_ptr<char[]>> bufs; // storage for static blocks, outlives the arenas.
  std::map<char const *, size_t> static_extent;
  unsigned char tag = 1;

  explicit World(Src &s) : g(s) {}

  bool
  is_static(void const *p)
  {
    for (auto &[b, n] : static_extent)
      if (b <= static_cast<char const *>(p) && static_cast<char const *>(p) < b + n)
        return true;
    return false;
  }

  void
  released(std::vector<Item> const &items, Blocks const &bs, char const *what)
  {
    for (auto const &[p, n] : bs)
      if (!is_static(p))
        REQ(__asan_address_is_poisoned(p), what, " did not release a block of ", n);
    for (auto const &i : items)
      if (i.n && !is_static(i.p))
        REQ(__asan_address_is_poisoned(i.p), what, " did not release memory");
  }

  void
  make(Model &x)
  {
    unsigned k = g.weighted({4, 3, 3, 1});
    if (k == 0) {
      x.arena = std::make_unique<MemArena>();
    } else if (k == 1) {
      size_t n = g.chance(10) ? g.draw(20000) : g.draw(700);
      x.arena  = std::make_unique<MemArena>(n);
      g.note("arena hint ", n);
      if (g.flip()) {
        x.arena->alloc(0);
        REQ(x.arena->remaining() >= n, "hint ", n, " but only ", x.arena->remaining());
        REQ_EQ(x.arena->size(), 0u);
      }
    } else {
      size_t n = k == 2 ? 64 + g.draw(300) : g.draw(80);
      bufs.emplace_back(new char[n]);
      char *p = bufs.back().get();
      memset(p, 0x5a, n);
      g.note("arena static ", n);
      bool bad = false;
      try {
        x.arena = std::make_unique<MemArena>(MemSpan<void>{p, n});
      } catch (std::domain_error const &) {
        bad = true;
      }
      REQ(!bad || n < 64, "static block of ", n, " rejected");
      if (bad) {
        x.arena = std::make_unique<MemArena>();
      } else {
        static_extent[p] = n;
        REQ(x.arena->remaining() > 0 && x.arena->remaining() <= n);
        REQ(x.arena->remnant().data() >= p && x.arena->remnant().data_end() == p + n, "static block not used");
      }
    }
  }

  void
  check(Model &x, char const *when)
  {
    auto &a = *x.arena;
    REQ_EQ(a.size(), x.active_size, when);
    REQ_EQ(a.allocated_size(), x.active_size + x.frozen_size, when);
    auto act = blocks(a.begin(), a.end());
    auto frz = blocks(a.frozen_begin(), a.frozen_end());
    size_t total = 0;
    for (auto &[p, n] : act)
      total += n;
    for (auto &[p, n] : frz)
      total += n;
    REQ_EQ(a.reserved_size(), total, when, " reserved size");
    REQ(a.reserved_size() >= a.allocated_size(), when);
    REQ_EQ(a.remaining(), a.remnant().size(), when);
    auto in = [&](Blocks const &bs, Item const &i) {
      for (auto &[p, n] : bs)
        if (p <= i.p && i.p + i.n <= p + n)
          return true;
      return false;
    };
    for (auto const &i : x.active) {
      i.verify(when);
      if (i.n) {
        REQ(in(act, i), when, " active memory not in an active block");
        REQ(a.contains(i.p) && a.contains(i.p + i.n - 1), when, " contains");
      }
    }
    for (auto const &i : x.frozen) {
      i.verify(when);
      if (i.n) {
        REQ(in(frz, i), when, " frozen memory not in a frozen block");
        REQ(a.contains(i.p) && a.contains(i.p + i.n - 1), when, " contains");
      }
    }
    REQ(!a.contains(&x), when);
    for (auto const *v : {&act, &frz}) {
      for (auto const &[p, n] : *v) {
        if (n) {
          REQ(a.contains(p) && a.contains(p + n - 1), when, " contains block");
          bool other = false; // another block could follow.
          for (auto const *w : {&act, &frz})
            for (auto const &[q, k] : *w)
              other = other || (q - 64 <= p + n && p + n < q + k);
          REQ(other || !a.contains(p + n), when, " contains past the end of a block");
        }
      }
    }
  }

  void
  check_all(char const *when)
  {
    for (auto &x : m) {
      check(x, when);
      for (auto &y : m)
        if (&x != &y)
          for (auto const &i : x.active)
            if (i.n)
              REQ(!y.arena->contains(i.p), "memory in two arenas ", when);
    }
  }

  /// Check a new piece of memory against all of the live memory, and record it.
  void
  add(Model &x, void *ptr, size_t n, size_t align, char const *what, bool keep = true)
  {
    char *p = static_cast<char *>(ptr);
    REQ(reinterpret_cast<uintptr_t>(p) % align == 0, what, " of ", n, " not aligned to ", align);
    if (n) {
      for (auto const &y : m)
        for (auto const *v : {&y.active, &y.frozen})
          for (auto const &i : *v)
            REQ(i.n == 0 || p + n <= i.p || i.p + i.n <= p, what, " of ", n, " overlaps a live block of ", i.n);
      REQ(x.arena->contains(p) && x.arena->contains(p + n - 1), what, " of ", n, " not in the arena");
    }
    if (keep) {
      Item i{p, n, 0};
      i.fill(tag);
      tag = tag % 250 + 1;
      x.active.push_back(i);
      x.active_size += n;
    } else {
      memset(p, 0xEE, n);
    }
  }

  size_t
  a_size()
  {
    switch (g.weighted({12, 4, 1})) {
    case 0:
      return g.draw(80);
    case 1:
      return g.draw(900);
    }
    return g.draw(20000);
  }
  size_t
  an_align(unsigned max = 8)
  {
    return g.chance(60) ? 1 : size_t(1) << g.draw(max);
  }

  template <typename T>
  void
  alloc_span(Model &x)
  {
    size_t n = g.draw(20);
    auto s   = x.arena->alloc_span<T>(n);
    REQ_EQ(s.count(), n);
    add(x, s.data(), n * sizeof(T), alignof(T), "alloc_span");
  }
  template <typename T>
  void
  remnant_span(Model &x)
  {
    size_t n = g.draw(20);
    auto s   = x.arena->remnant_span<T>(n);
    REQ_EQ(s.count(), n, "remnant span");
    add(x, s.data(), n * sizeof(T), alignof(T), "remnant span", false);
    if (g.flip()) { // documented to be the same bytes as alloc would return.
      auto a = x.arena->alloc_span<T>(n);
      REQ(a.data() == s.data(), "remnant_span and alloc_span differ");
      add(x, a.data(), n * sizeof(T), alignof(T), "alloc_span");
    }
  }

  void
  op_alloc(Model &x)
  {
    auto &a   = *x.arena;
    size_t n = a_size(), al = an_align();
    g.note(" alloc ", n, " align ", al);
    switch (g.weighted({6, 2, 2, 1, 2, 1, 1})) {
    case 0: {
      auto rem    = a.remnant();
      size_t pad  = (al - reinterpret_cast<uintptr_t>(rem.data()) % al) % al;
      bool fits   = !rem.empty() && pad + n <= rem.size();
      auto s      = al == 1 && g.flip() ? a.alloc(n) : a.alloc(n, al);
      REQ_EQ(s.size(), n);
      if (fits)
        REQ(s.data() == static_cast<char *>(rem.data()) + pad, "allocation that fits is not from the remnant");
      add(x, s.data(), n, al, "alloc");
    } break;
    case 1:
      switch (g.draw(3)) {
      case 0:
        alloc_span<char>(x);
        break;
      case 1:
        alloc_span<int>(x);
        break;
      case 2:
        alloc_span<Blob>(x);
        break;
      case 3:
        alloc_span<Wide>(x);
        break;
      }
      break;
    case 2: {
      auto b = a.make<Blob>(1, 2, 3);
      REQ(b->a == 1 && b->b == 2 && b->c == 3, "make");
      add(x, b, sizeof(Blob), alignof(Blob), "make");
    } break;
    case 3: {
      auto w = a.make<Wide>();
      add(x, w, sizeof(Wide), alignof(Wide), "make");
    } break;
    case 4: {
      std::string s = g.bytes(60);
      Exact e(s);
      bool c = g.flip(), cstr = s.find('\0') == s.npos && g.flip();
      MemSpan<char> r;
      if (cstr) {
        Exact z(std::string_view(s.c_str(), s.size() + 1));
        r = c ? a.localize_c(static_cast<char const *>(z.p)) : a.localize(static_cast<char const *>(z.p));
      } else {
        r = c ? a.localize_c(MemSpan<char const>(e.p, e.n)) : a.localize(MemSpan<char const>(e.p, e.n));
      }
      REQ_EQ(std::string_view(r.data(), r.size()), std::string_view(s), "localize");
      if (c)
        REQ(r.data()[s.size()] == 0, "localize_c did not terminate the string");
      add(x, r.data(), s.size() + c, 1, "localize");
    } break;
    case 5: {
      std::pmr::memory_resource *mr = &a;
      auto p                        = mr->allocate(n, al);
      add(x, p, n, al, "pmr allocate");
      mr->deallocate(p, n, al);
      REQ(mr->is_equal(a));
    } break;
    case 6: {
      // remnant, then use it.
      auto s = a.remnant(n, al);
      REQ_EQ(s.size(), n, "remnant");
      add(x, s.data(), n, al, "remnant", false);
      if (g.flip()) {
        auto b = a.alloc(n, al);
        REQ(n == 0 || b.data() == s.data(), "alloc did not use the remnant");
        add(x, b.data(), n, al, "alloc");
      }
    } break;
    }
  }
};
} // namespace

PROPERTY(arena_history, 10, "at least four allocations and a generation change (freeze, thaw, discard, clear or move)")
{
  g.scaled();
  World w(g);
  w.m.resize(1 + g.draw(1));
  for (auto &x : w.m)
    w.make(x);
  w.check_all("construct");
  unsigned n = 0, allocs = 0, gens = 0;
  while (g.more(16, n, 40)) {
    ++n;
    auto &x = w.m[g.draw(w.m.size() - 1)];
    auto &a = *x.arena;
    unsigned op = g.weighted({14, 3, 3, 2, 2, 3, 1, 2, 2, 1, 1});
    bool jf     = x.just_frozen;
    x.just_frozen = false;
    switch (op) {
    case 0:
      w.op_alloc(x);
      ++allocs;
      break;
    case 1: { // require
      size_t k = w.a_size(), al = w.an_align();
      g.note(" require ", k, " align ", al);
      a.require(k, al);
      REQ(a.remaining() >= k, "require ", k, " has only ", a.remaining());
      auto r = a.remnant();
      REQ(k == 0 || swoc::MemArena::Block::align_padding(r.data(), al) + k <= r.size(), "require alignment");
      size_t rs = a.reserved_size();
      a.require(k, al);
      REQ_EQ(a.reserved_size(), rs, "second require reserved more");
      REQ(a.remnant().data() == r.data());
    } break;
    case 2: // typed remnant
      switch (g.draw(4)) {
      case 4: {
        size_t k = w.a_size();
        auto sp  = a.remnant_span<void>(k);
        REQ_EQ(sp.size(), k, "untyped remnant");
        REQ(k == 0 || sp.data() == a.remnant().data(), "untyped remnant");
        memset(sp.data(), 0x5A, k);
        size_t sz = a.size();
        auto s2   = a.alloc(k); // alignment 1 - exactly the remnant.
        REQ(k == 0 || s2.data() == sp.data(), "remnant not committed by the next allocation");
        REQ_EQ(a.size(), sz + k);
        w.add(x, s2.data(), k, 1, "alloc of remnant");
        } break;
      case 0:
        w.remnant_span<char>(x);
        break;
      case 1:
        w.remnant_span<int>(x);
        break;
      case 2:
        w.remnant_span<Blob>(x);
        break;
      case 3:
        w.remnant_span<void *>(x);
        break;
      }
      break;
    case 3: { // discard one
      if (x.active.empty())
        break;
      size_t k = g.flip() ? x.active.size() - 1 : g.draw(x.active.size() - 1);
      auto i   = x.active[k];
      g.note(" discard item ", k, " of ", i.n);
      a.discard(MemSpan<void const>{i.p, i.n});
      if (a.size() != x.active_size || i.n == 0) { // it worked
        x.active_size -= i.n;
        x.active.erase(x.active.begin() + k);
        gens += 1;
      }
      REQ_EQ(a.size(), x.active_size, "discard");
    } break;
    case 4: { // allocate and discard - always works.
      size_t k = 1 + w.a_size(), al = w.an_align(4);
      g.note(" alloc ", k, " align ", al, " and discard");
      auto s    = a.alloc(k, al);
      size_t sz = a.size();
      w.add(x, s.data(), k, al, "alloc");
      w.check(x, "before discard");
      size_t avail = 0;
      for (auto it = a.begin(); it != a.end(); ++it)
        avail += it->remaining();
      a.discard(MemSpan<void const>{s.data(), k});
      REQ_EQ(a.size(), sz - k, "discard of the latest allocation");
      x.active.pop_back();
      x.active_size -= k;
      for (auto it = a.begin(); it != a.end(); ++it)
        avail -= it->remaining();
      REQ_EQ(avail + k, 0u, "discarded memory must be available again");
      ++gens;
    } break;
    case 5: { // freeze
      size_t hint = g.flip() ? 0 : w.a_size();
      g.note(" freeze ", hint);
      auto gone = blocks(a.frozen_begin(), a.frozen_end());
      auto keep = blocks(a.begin(), a.end());
      a.freeze(hint);
      w.released(x.frozen, gone, "freeze");
      REQ(blocks(a.frozen_begin(), a.frozen_end()) == keep, "freeze must freeze the active blocks");
      REQ_EQ(a.remaining(), 0u, "freeze");
      REQ(a.begin() == a.end(), "freeze");
      x.frozen      = std::move(x.active);
      x.frozen_size = x.active_size;
      x.active.clear();
      x.active_size = 0;
      ++gens;
      if (g.flip()) {
        a.alloc(0);
        size_t need = hint ? hint : x.frozen_size;
        REQ(a.remaining() >= need, "after freeze(", hint, ") of ", need, " only ", a.remaining());
      }
    } break;
    case 6: { // thaw
      g.note(" thaw");
      auto gone = blocks(a.frozen_begin(), a.frozen_end());
      a.thaw();
      w.released(x.frozen, gone, "thaw");
      REQ(a.frozen_begin() == a.frozen_end(), "thaw");
      x.frozen.clear();
      x.frozen_size = 0;
      ++gens;
    } break;
    case 7: { // coalesce: freeze, copy, thaw
      g.note(" coalesce");
      a.thaw();
      x.frozen.clear();
      x.frozen_size = 0;
      a.freeze();
      x.frozen      = std::move(x.active);
      x.frozen_size = x.active_size;
      x.active.clear();
      x.active_size = 0;
      for (auto const &i : x.frozen) {
        auto s = a.localize(MemSpan<char const>{i.p, i.n});
        Item c{s.data(), i.n, i.tag};
        c.verify("copied");
        x.active.push_back(c);
        x.active_size += i.n;
      }
      auto bs = blocks(a.begin(), a.end());
      REQ(bs.size() <= 1, "coalesce used ", bs.size(), " blocks");
      w.check(x, "before thaw");
      auto gone = blocks(a.frozen_begin(), a.frozen_end());
      a.thaw();
      w.released(x.frozen, gone, "thaw");
      x.frozen.clear();
      x.frozen_size = 0;
      ++gens;
    } break;
    case 8: { // clear / discard all
      size_t hint = g.flip() ? 0 : w.a_size();
      if (g.flip()) {
        g.note(" clear ", hint);
        auto b1     = blocks(a.begin(), a.end());
        auto b2     = blocks(a.frozen_begin(), a.frozen_end());
        size_t need = hint ? hint : x.active_size + x.frozen_size;
        a.clear(hint);
        w.released(x.active, b1, "clear");
        w.released(x.frozen, b2, "clear");
        x.frozen.clear();
        x.frozen_size = 0;
        REQ_EQ(a.reserved_size(), 0u, "clear");
        REQ_EQ(a.remaining(), 0u, "clear");
        if (g.flip()) {
          a.alloc(0);
          REQ(a.remaining() >= need, "after clear(", hint, ") of ", need, " only ", a.remaining());
        }
      } else {
        g.note(" discard all ", hint);
        size_t rs = a.reserved_size();
        auto b    = blocks(a.begin(), a.end());
        a.discard(hint);
        REQ_EQ(a.reserved_size(), rs, "discard");
        REQ(b == blocks(a.begin(), a.end()), "discard must keep the blocks");
        size_t best = 0;
        for (auto &[p, n] : b)
          best = std::max(best, n);
        if (best && g.flip()) {
          a.alloc(g.draw(best));
          REQ_EQ(a.reserved_size(), rs, "discarded blocks are not reused");
          a.discard(hint);
        }
      }
      x.active.clear();
      x.active_size = 0;
      ++gens;
    } break;
    case 9: { // move to a new arena
      g.note(" move construct");
      auto t = std::make_unique<MemArena>(std::move(a));
      REQ_EQ(a.size(), 0u);
      REQ_EQ(a.allocated_size(), 0u);
      REQ_EQ(a.reserved_size(), 0u);
      REQ(a.begin() == a.end());
      if (g.flip()) { // moved from is usable
        auto s = a.alloc(10);
        memset(s.data(), 1, 10);
      }
      x.arena = std::move(t);
      ++gens;
    } break;
    case 10: { // move assign
      if (w.m.size() < 2)
        break;
      auto &y = &x == &w.m[0] ? w.m[1] : w.m[0];
      g.note(" move assign");
      auto b1 = blocks(y.arena->begin(), y.arena->end());
      auto b2 = blocks(y.arena->frozen_begin(), y.arena->frozen_end());
      *y.arena = std::move(*x.arena);
      w.released(y.active, b1, "move assign");
      w.released(y.frozen, b2, "move assign");
      y.active      = std::move(x.active);
      y.frozen      = std::move(x.frozen);
      y.active_size = x.active_size;
      y.frozen_size = x.frozen_size;
      x.active.clear();
      x.frozen.clear();
      x.active_size = x.frozen_size = 0;
      ++gens;
    } break;
    }
    w.check_all("after operation");
    (void)jf;
  }
  // Destruction releases everything, and static blocks survive.
  for (auto &x : w.m) {
    auto b1 = blocks(x.arena->begin(), x.arena->end());
    auto b2 = blocks(x.arena->frozen_begin(), x.arena->frozen_end());
    x.arena.reset();
    w.released(x.active, b1, "destruct");
    w.released(x.frozen, b2, "destruct");
  }
  g.label("generation change", gens > 0);
  g.label("5+ generation changes", gens > 4);
  g.label("static block", !w.static_extent.empty());
  g.nontrivial(allocs >= 4 && gens > 0);
}

PROPERTY(self_contained, 1, "memory is allocated in a self contained arena")
{
  g.scaled();
  size_t hint = g.flip() ? g.draw(3000) : g.draw(20);
  MemArena *a = MemArena::construct_self_contained(hint);
  MemArena::unique_ptr up(a, MemArena::destroyer);
  REQ(a->contains(a), "self contained");
  REQ(a->remaining() >= hint, "hint ", hint, " remaining ", a->remaining());
  REQ_EQ(a->size(), sizeof(MemArena));
  std::vector<Item> items;
  unsigned n = 0;
  auto reserved0 = a->reserved_size();
  size_t total   = 0;
  while (g.more(8, n, 20)) {
    ++n;
    auto k = g.chance(5) ? g.draw(9000) : g.draw(100);
    auto s = a->alloc(k);
    Item i{static_cast<char *>(s.data()), k, 0};
    i.fill(n + 1);
    items.push_back(i);
    total += k;
    for (auto &j : items)
      j.verify("self contained");
    REQ(a->contains(a));
    REQ_EQ(a->size(), total + sizeof(MemArena));
    if (total <= hint)
      REQ_EQ(a->reserved_size(), reserved0, "allocations within the hint need another block");
  }
  auto bs = blocks(a->begin(), a->end());
  up.reset();
  for (auto &[p, k] : bs)
    REQ(__asan_address_is_poisoned(p), "block leaked");
  g.nontrivial(n > 0);
}

// An arena that is moved in to memory it allocated, after other use, as described in the documentation ("inversion").
PROPERTY(inverted, 1, "memory is allocated before and after the inversion")
{
  g.scaled();
  std::vector<char> store;
  auto ta = std::make_unique<MemArena>();
  if (unsigned k = g.draw(3); k == 1) {
    ta = std::make_unique<MemArena>(g.draw(3000));
  } else if (k == 2) {
    store.resize(64 + g.draw(2000));
    ta = std::make_unique<MemArena>(MemSpan<void>(store.data(), store.size()));
  }
  std::vector<Item> items;
  size_t active = 0, frozen = 0;
  unsigned n    = 0;
  MemArena *a   = ta.get();
  auto use      = [&](unsigned limit) {
    unsigned k = 0;
    while (g.more(4, k, limit)) {
      ++k;
      ++n;
      if (g.chance(12) && frozen == 0) {
        g.note(" freeze");
        a->freeze(g.flip() ? 0 : g.draw(300));
        frozen = active;
        active = 0;
      } else {
        auto size = g.chance(8) ? g.draw(9000) : g.draw(100);
        auto s    = a->alloc(size, g.flip() ? 1 : size_t(1) << g.draw(5));
        g.note(" alloc ", size);
        Item i{static_cast<char *>(s.data()), size, 0};
        i.fill(n);
        items.push_back(i);
        active = a->size(); // alignment is counted.
      }
      for (auto &j : items)
        j.verify("inverted");
      REQ_EQ(a->allocated_size(), active + frozen, "allocated size");
    }
    return k;
  };
  unsigned before = use(12);
  g.note(" invert");
  MemArena *inv = ta->make<MemArena>(std::move(*ta));
  active        = inv->size();
  a             = inv;
  REQ(a->contains(a), "the arena is not in its own memory");
  REQ_EQ(ta->size(), 0u, "memory left");
  REQ_EQ(ta->reserved_size(), 0u, "memory left");
  REQ_EQ(ta->allocated_size(), 0u, "memory left");
  if (g.flip()) { // the original can be used.
    auto s = ta->alloc(g.draw(200));
    memset(s.data(), '!', s.size());
    REQ(!a->contains(s.data()) || s.empty(), "shared memory");
  }
  if (g.flip())
    ta.reset();
  unsigned after = use(16);
  REQ(a->contains(a), "the arena is not in its own memory");
  auto b1 = blocks(a->begin(), a->end());
  auto b2 = blocks(a->frozen_begin(), a->frozen_end());
  for (auto &j : items)
    j.verify("before the end");
  a->~MemArena();
  b1.insert(b1.end(), b2.begin(), b2.end());
  for (auto &[p, k] : b1)
    if (store.empty() || p < store.data() || p >= store.data() + store.size())
      REQ(__asan_address_is_poisoned(p), "block leaked");
  for (auto &c : store)
    c = 'x'; // not released.
  g.nontrivial(before > 0 && after > 0);
}
