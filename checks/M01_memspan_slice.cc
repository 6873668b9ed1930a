// M01 - slicing a span selects exactly the elements asked for, clipped by the span.
#include "util.h"
#include "swoc/MemSpan.h"
#include "swoc/TextView.h"
#include <array>
#include <sys/mman.h>
using swoc::MemSpan;
using pbt::Src;

namespace
{
struct Obj16 {
  int64_t a, b;
};
template <typename T> struct unit {
  static constexpr size_t size = sizeof(T);
};
template <> struct unit<void> {
  static constexpr size_t size = 1;
};
template <> struct unit<void const> {
  static constexpr size_t size = 1;
};

/// Address space without memory, for spans which are larger than any memory.
constexpr size_t RESERVED = size_t(1) << 36;
char *
reserved()
{
  static char *p = [] {
    void *m = mmap(nullptr, RESERVED, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return m == MAP_FAILED ? nullptr : static_cast<char *>(m);
  }();
  return p;
}

template <typename T>
void
run(Src &g, char const *type)
{
  using Span           = MemSpan<T>;
  constexpr size_t W   = unit<T>::size;
  constexpr bool VOID  = std::is_void_v<T>;
  bool const big       = g.chance(8) && reserved() != nullptr;
  size_t n             = big ? RESERVED / W - g.draw(9) : g.draw(24);
  char *mem            = big ? reserved() : static_cast<char *>(malloc(n * W));
  std::unique_ptr<char, void (*)(void *)> holder(big ? nullptr : mem, &free);
  for (size_t i = 0; !big && i < n * W; ++i)
    mem[i] = char(i * 7);
  auto limit = [&](size_t max) -> size_t {
    if (max < 64)
      return g.draw(max);
    size_t edge = size_t(1) << g.pick({5, 8, 15, 16, 31, 32, 33, 35});
    switch (g.draw(3)) {
    case 0:
      return g.draw(max);
    case 1:
      return max - g.draw(32);
    case 2:
      return std::min(max, edge / W + g.draw(4) - 2);
    default:
      return std::min(max, edge + g.draw(4) - 2);
    }
  };
  g.label("larger than memory", big);
  auto ptr = [&](size_t i) { return reinterpret_cast<T *>(mem + i * W); };
  Span span;
  if (g.flip()) { // some other span before.
    span = Span(ptr(n / 2), n - n / 2);
    if (g.chance(30))
      span.clear();
  }
  unsigned how = g.range(0u, 5u);
  switch (how) {
  case 0:
    span.assign(ptr(0), ptr(n));
    break;
  case 1:
    span.assign(ptr(0), n);
    break;
  case 2:
    span = Span(ptr(0), ptr(n));
    break;
  case 3:
    span = Span(ptr(0), n);
    break;
  case 4: {
    Span tmp(ptr(0), n);
    span = tmp;
    break;
  }
  case 5: {
    Span const tmp(ptr(0), n);
    Span copy(tmp);
    span = copy;
    break;
  }
  }
  size_t b = 0, e = n;
  g.note(type, " x ", n);
  unsigned steps = 0, in_range = 0;
  auto same = [&](Span const &s, size_t sb, size_t se, char const *what) {
    REQ_EQ(s.size(), se - sb, what, " size");
    REQ_EQ(s.count(), se - sb, what);
    REQ_EQ(s.length(), se - sb, what);
    REQ_EQ(s.data_size(), (se - sb) * W, what);
    REQ_EQ(s.empty(), se == sb, what);
    REQ_EQ(bool(s), se != sb, what);
    REQ_EQ(!s, se == sb, what);
    if (se != sb) {
      REQ(static_cast<void const *>(s.data()) == mem + sb * W, what, " start");
      REQ(static_cast<void const *>(s.data_end()) == mem + se * W, what, " end");
    }
  };
  g.note("set by form ", how);
  same(span, b, e, "construct");
  same(Span(nullptr), 0, 0, "null");
  while (g.more(6, steps, 12)) {
    ++steps;
    size_t sz = e - b;
    size_t k  = g.chance(10) ? g.edgy() : limit(sz + 2);
    size_t c  = std::min(k, sz);
    in_range += k > 0 && k < sz;
    unsigned op = g.range(0u, 11u);
    g.note("  op ", op, " n ", k, " size ", sz);
    switch (op) {
    case 0:
      same(span.prefix(k), b, b + c, "prefix");
      break;
    case 1:
      same(span.suffix(k), e - c, e, "suffix");
      break;
    case 2:
      if constexpr (!VOID) {
        same(span.first(k), b, b + c, "first");
        same(span.last(k), e - c, e, "last");
      }
      break;
    case 3: {
      auto &r = span.remove_prefix(k);
      REQ(&r == &span);
      b += c;
      break;
    }
    case 4: {
      auto &r = span.remove_suffix(k);
      REQ(&r == &span);
      e -= c;
      break;
    }
    case 5: {
      auto r = span.clip_prefix(k);
      same(r, b, b + c, "clip_prefix");
      b += c;
      break;
    }
    case 6: {
      auto r = span.clip_suffix(k);
      same(r, e - c, e, "clip_suffix");
      e -= c;
      break;
    }
    case 7: {
      size_t cnt = g.chance(10) ? g.edgy() : limit(sz + 2);
      auto r     = span.subspan(k, cnt);
      if (k >= sz)
        REQ(r.empty(), "subspan out of range");
      else
        same(r, b + k, b + k + std::min(cnt, sz - k), "subspan");
      break;
    }
    case 8:
      if constexpr (!VOID) {
        span.restrict(k);
        e = b + c;
      }
      break;
    case 9: { // contains
      for (size_t j = 0; j < std::min(n, size_t(24)); ++j) {
        size_t i = big ? std::min(n - 1, (j & 1 ? b : e) + j / 2 - 5) : j;
        REQ_EQ(span.contains(ptr(i)), i >= b && i < e, "contains ", i);
      }
      REQ_EQ(span.contains(ptr(n)), false, "contains end");
      break;
    }
    case 10: { // copies are the same span
      Span copy{span};
      REQ(copy.is_same(span));
      if (!big)
        REQ(copy == span);
      auto [p, s] = std::pair<T *, size_t>(span.data(), span.size());
      REQ(copy.data() == p && copy.size() == s);
      if (e > b) {
        copy.remove_prefix(1);
        REQ(!copy.is_same(span));
      }
      if (e - b > 1) { // same start, other size, and the other way around.
        Span head{span};
        head.remove_suffix(1);
        REQ(!head.is_same(span) && !span.is_same(head), "is_same, different size");
        REQ(!(head == span) && head != span, "equality, different size");
        Span tail{span};
        tail.remove_prefix(1);
        REQ(!head.is_same(tail), "is_same, same size elsewhere");
      }
      auto &r = copy.clear();
      REQ(&r == &copy && copy.empty() && copy.data() == nullptr);
      break;
    }
    case 11: { // start over with another part of the memory.
      b = limit(n);
      e = b + limit(n - b);
      if (g.flip()) {
        auto &r = span.assign(ptr(b), e - b);
        REQ(&r == &span);
      } else {
        auto &r = span.assign(ptr(b), ptr(e));
        REQ(&r == &span);
      }
      break;
    }
    }
    same(span, b, e, "the span");
    if constexpr (!VOID) {
      if (b < e) {
        REQ(&span.front() == ptr(b));
        REQ(&span.back() == ptr(e - 1));
        REQ(&span[e - b - 1] == ptr(e - 1));
      }
      if (big) {
        REQ(b == e || (span.begin() == ptr(b) && span.end() == ptr(e)), "bounds of iteration");
        continue;
      }
      size_t i = b;
      for (auto &elt : span) {
        REQ(&elt == ptr(i), "iteration");
        ++i;
      }
      REQ_EQ(i, e, "iteration");
      i = 0;
      span.apply([&](T &) { ++i; });
      REQ_EQ(i, e - b, "apply");
    }
  }
  g.nontrivial(in_range >= 2);
}
} // namespace

PROPERTY(slices, 1, "at least 2 operations with a size strictly inside the span")
{
  g.scaled();
  switch (g.range(0, 7)) {
  case 0:
    return run<char>(g, "char");
  case 1:
    return run<int>(g, "int");
  case 2:
    return run<Obj16>(g, "Obj16");
  case 3:
    return run<void>(g, "void");
  case 4:
    return run<void const>(g, "void const");
  case 5:
    return run<char const>(g, "char const");
  case 6:
    return run<uint16_t const>(g, "uint16_t const");
  case 7:
    return run<double>(g, "double");
  }
}
