// M03 - requests that are very large, impossible, or made when no memory is available.
#include "util.h"
#include "swoc/MemArena.h"
#include <sys/mman.h>
#include <cerrno>
#include <map>
#include <memory_resource>
#include <new>
using swoc::MemArena;
using swoc::MemSpan;
using pbt::Src;

// Stand ins for the allocator: very large blocks are address space without memory, and any request can be made to fail.
namespace
{
constexpr size_t BIG = size_t(1) << 28;
constexpr size_t TOP = size_t(1) << 40;
bool NoMemory        = false;
unsigned Refused     = 0;
std::map<void *, size_t> &
mapped()
{
  static std::map<void *, size_t> m;
  return m;
}
} // namespace
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *
__wrap_malloc(size_t n)
{
  if (NoMemory || n > TOP) {
    ++Refused;
    errno = ENOMEM;
    return nullptr;
  }
  if (n < BIG)
    return __real_malloc(n);
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    ++Refused;
    return nullptr;
  }
  mapped()[p] = n;
  return p;
}
void
__wrap_free(void *p)
{
  if (auto spot = mapped().find(p); spot != mapped().end()) {
    munmap(p, spot->second);
    mapped().erase(spot);
    return;
  }
  __real_free(p);
}
}

namespace
{
struct Piece {
  char *p;
  size_t n;
  unsigned char tag;
  size_t
  edge() const
  {
    return std::min<size_t>(n, 64);
  }
  void
  fill(unsigned char t)
  {
    tag = t;
    memset(p, t, edge());
    memset(p + n - edge(), t, edge());
  }
  bool
  good() const
  {
    for (size_t i = 0; i < edge(); ++i)
      if ((unsigned char)(p[i]) != tag || (unsigned char)(p[n - 1 - i]) != tag)
        return false;
    return true;
  }
};
struct Wide {
  uint64_t v[6];
};

size_t
big_size(Src &g)
{
  size_t base = size_t(1) << (28 + g.draw(6));
  switch (g.draw(2)) {
  case 0:
    return base + g.draw(9000) - 4500;
  case 1:
    return base - g.draw(80);
  default:
    return base + g.draw(base);
  }
}
size_t
silly_size(Src &g)
{
  size_t base = size_t(1) << (60 + g.draw(3)); // 2^60 and up, possibly past 2^63
  switch (g.draw(2)) {
  case 0:
    return ~size_t(0) - g.draw(g.flip() ? 200 : 9000);
  case 1:
    return base + g.draw(9000) - 4500;
  default:
    return base + g.draw(base - 1);
  }
}
} // namespace

PROPERTY(large, 2, "a request of more than 2^31 bytes was granted, or one was refused and others follow")
{
  g.scaled();
  std::vector<Piece> live, frozen;
  size_t total = 0, cold = 0;
  unsigned n = 0;
  bool granted = false, refused = false, after = false;
  NoMemory = false;
  MemArena a(g.flip() ? 0 : g.flip() ? big_size(g) : g.draw(1000));
  auto check = [&](char const *when) {
    for (auto const &p : live) {
      REQ(p.good(), when, ": memory of ", p.n, " damaged");
      REQ(a.contains(p.p) && a.contains(p.p + p.n - 1), when, ": not contained");
    }
    for (auto const &p : frozen)
      REQ(p.good(), when, ": frozen memory of ", p.n, " damaged");
    REQ_EQ(a.size(), total, when, ": size");
    REQ_EQ(a.allocated_size(), total + cold, when, ": allocated size");
    REQ(a.reserved_size() >= total + cold, when, ": reserved size");
  };
  auto add = [&](void *ptr, size_t k, size_t align, char const *what) {
    char *p = static_cast<char *>(ptr);
    REQ(uintptr_t(p) % align == 0, what, ": alignment");
    for (auto const *v : {&live, &frozen})
      for (auto const &q : *v)
        REQ(p + k <= q.p || q.p + q.n <= p, what, ": overlap");
    if (k) {
      live.push_back({p, k, 0});
      live.back().fill((unsigned char)(1 + n * 7));
    }
    total   += k;
    granted  = granted || k > (size_t(1) << 31);
    after    = after || refused;
  };
  while (g.more(8, n, 20)) {
    ++n;
    size_t align = size_t(1) << g.draw(g.chance(20) ? 12 : 4);
    switch (g.weighted({4, 3, 4, 3, 1, 1, 1})) {
    case 0: { // ordinary
      size_t k = g.draw(300);
      g.note(" alloc ", k, " align ", align);
      auto s = a.alloc(k, align);
      REQ_EQ(s.size(), k, "alloc");
      add(s.data(), k, align, "alloc");
    } break;
    case 1: { // large
      size_t k = big_size(g);
      g.note(" alloc ", k, " align ", align);
      unsigned was = Refused;
      try {
        switch (g.draw(3)) {
        case 0: {
          auto s = a.alloc(k, align);
          REQ_EQ(s.size(), k, "alloc");
          add(s.data(), k, align, "alloc");
        } break;
        case 1: {
          auto s = a.alloc_span<Wide>(k / sizeof(Wide));
          REQ_EQ(s.size(), k / sizeof(Wide), "alloc_span");
          add(s.data(), s.data_size(), alignof(Wide), "alloc_span");
        } break;
        case 2: {
          a.require(k, align);
          REQ(a.remaining() >= k, "require ", k, " has ", a.remaining());
          auto s = a.remnant(k, align);
          REQ_EQ(s.size(), k, "remnant");
          auto t = a.alloc(k, align);
          REQ(t.data() == s.data() && t.size() == k, "alloc of the remnant");
          add(t.data(), k, align, "alloc");
        } break;
        default: {
          std::pmr::memory_resource *mr = &a;
          add(mr->allocate(k, align), k, align, "resource");
        } break;
        }
      } catch (std::bad_alloc const &) {
        REQ(Refused != was, "request of ", k, " refused");
      }
    } break;
    case 2: { // impossible
      size_t k = silly_size(g), r = a.reserved_size();
      auto at  = a.remnant();
      bool thrown = false;
      auto what   = g.draw(5);
      g.note(" impossible ", k, " align ", align, " form ", what);
      try {
        switch (what) {
        case 0:
          a.alloc(k, align);
          break;
        case 1:
          a.require(k, align);
          break;
        case 2:
          a.alloc_span<Wide>(g.flip() ? k : ~size_t(0) / sizeof(Wide) + g.draw(60));
          break;
        case 3:
          a.remnant_span<Wide>(g.flip() ? k : ~size_t(0) / sizeof(Wide) + g.draw(60));
          break;
        case 4:
          a.remnant(k, align);
          break;
        default: {
          std::pmr::memory_resource *mr = &a;
          static void *volatile sink;
          sink = mr->allocate(k, align);
        } break;
        }
      } catch (std::exception const &) {
        thrown = true;
      }
      REQ(thrown, "impossible request granted");
      REQ_EQ(a.reserved_size(), r, "reserved by a request that failed");
      REQ(a.remnant().data() == at.data() && a.remnant().size() == at.size(), "remnant changed by a request that failed");
      refused = true;
    } break;
    case 3: { // no memory
      size_t k = g.chance(50) ? a.remaining() + 1 + g.draw(300) : g.draw(6000), r = a.reserved_size();
      if (g.chance(30))
        k = big_size(g);
      unsigned was = Refused;
      bool thrown  = false;
      MemSpan<void> s;
      g.note(" no memory ", k, " align ", align);
      NoMemory = true;
      try {
        s = a.alloc(k, align);
      } catch (std::exception const &) {
        thrown = true;
      }
      NoMemory = false;
      REQ_EQ(thrown, Refused != was, "failure of the allocator");
      REQ_EQ(a.reserved_size(), r, "reserved without memory");
      if (!thrown) {
        REQ_EQ(s.size(), k, "alloc");
        add(s.data(), k, align, "alloc");
      } else {
        refused = true;
      }
    } break;
    case 4: { // freeze
      size_t hint = g.flip() ? 0 : big_size(g);
      g.note(" freeze ", hint);
      a.freeze(hint);
      frozen = std::move(live);
      live.clear();
      cold  = total;
      total = 0;
      if (g.flip() && (hint ? hint : cold) < TOP / 2) {
        a.alloc(0);
        REQ(a.remaining() >= (hint ? hint : cold), "hint ", hint, " allocated ", cold, " remaining ", a.remaining());
      }
    } break;
    case 5:
      g.note(" thaw");
      a.thaw();
      frozen.clear();
      cold = 0;
      break;
    case 6: {
      size_t hint = g.flip() ? 0 : big_size(g);
      g.note(" clear ", hint);
      size_t want = hint ? hint : total + cold;
      a.clear(hint);
      live.clear();
      frozen.clear();
      total = cold = 0;
      REQ_EQ(a.reserved_size(), 0u, "clear");
      REQ(mapped().empty(), "memory is not released by clear");
      if (g.flip() && want < TOP / 2) {
        a.alloc(0);
        REQ(a.remaining() >= want, "hint ", want, " remaining ", a.remaining());
      }
    } break;
    }
    check("after");
  }
  g.label("more than 2^31", granted);
  g.label("refused", refused);
  g.nontrivial(granted || after);
  {
    MemArena gone(std::move(a));
    REQ_EQ(gone.size(), total, "move");
  }
  REQ(mapped().empty(), "memory is not released");
}
