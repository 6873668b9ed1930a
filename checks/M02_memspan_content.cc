// M02 - operations on the content of a span act on all of the elements and nothing else; rebinding
// and alignment preserve the memory.
#include "util.h"
#include "swoc/MemSpan.h"
#include "swoc/TextView.h"
#include <array>
#include <numeric>
using swoc::MemSpan;
using pbt::Src;

namespace
{
template <typename T>
std::vector<T>
gen(Src &g, unsigned max = 12)
{
  std::vector<T> v;
  while (g.more(5, v.size(), max))
    v.push_back(T(g.chance(70) ? g.draw(3) : g.edgy()));
  return v;
}
// Storage of exactly the needed size, for ASan.
template <typename T> struct Block {
  T *p;
  size_t n;
  explicit Block(std::vector<T> const &v) : p(static_cast<T *>(malloc(sizeof(T) * v.size()))), n(v.size()) { std::copy(v.begin(), v.end(), p); }
  ~Block() { free(p); }
  MemSpan<T>
  span()
  {
    return {p, n};
  }
  std::vector<T>
  vec() const
  {
    return {p, p + n};
  }
};
int
sgn(int x)
{
  return (x > 0) - (x < 0);
}

template <typename T>
void
compare(Src &g, char const *type)
{
  auto a = gen<T>(g), b = a;
  if (g.chance(80) && !b.empty()) { // change one element, any byte of it.
    auto i = g.draw(b.size() - 1);
    b[i]   = T(b[i] ^ (T(1) << g.draw(sizeof(T) * 8 - 1)));
  }
  if (g.chance(20))
    b = gen<T>(g);
  if (g.chance(20))
    b.resize(g.draw(b.size()));
  g.note(type, " sizes ", a.size(), " and ", b.size(), a == b ? " equal" : " different");
  Block<T> ba(a), bb(b);
  auto sa = ba.span(), sb = bb.span();
  REQ_EQ(sa == sb, a == b, "==");
  REQ_EQ(sa != sb, a != b, "!=");
  REQ_EQ(memcmp(sa, sb) == 0, a == b, "memcmp");
  REQ_EQ(sgn(memcmp(sa, sb)), -sgn(memcmp(sb, sa)), "memcmp antisymmetric");
  MemSpan<void> va(sa), vb(sb);
  REQ_EQ(va == vb, a == b, "void ==");
  REQ_EQ(va != vb, a != b, "void !=");
  REQ_EQ(MemSpan<void const>(sa) == MemSpan<void const>(sb), a == b, "void const ==");
  // the sign is that of the first octet that differs, or if there is none the shorter span is first, as for views.
  {
    auto n = std::min(a.size(), b.size());
    int r  = n ? sgn(memcmp(a.data(), b.data(), n * sizeof(T))) : 0;
    if (r == 0)
      r = a.size() < b.size() ? -1 : a.size() > b.size();
    REQ_EQ(sgn(memcmp(sa, sb)), r, "memcmp order");
    REQ_EQ(sgn(memcmp(va, vb)), r, "memcmp order of untyped spans");
  }
  REQ(memcmp(sa, sa) == 0 && sa == sa);
  // parts of the same memory
  size_t off = g.draw(a.size()), cnt = g.draw(a.size() - off);
  auto part = sa.subspan(off, cnt);
  std::vector<T> pv(a.begin() + off, a.begin() + off + part.size());
  REQ_EQ(part == sa, pv == a, "== of a part");
  REQ_EQ(sa == part, pv == a, "== of a part");
  REQ_EQ(MemSpan<void>(part) == va, pv == a, "void == of a part");
  REQ_EQ(memcmp(part, sa) == 0, pv == a, "memcmp of a part");
  REQ_EQ(memcmp(sa, part) == 0, pv == a, "memcmp of a part");
  g.nontrivial(a != b && a.size() == b.size() && a.size() > 1);
}

template <typename T>
void
copy(Src &g, char const *type)
{
  auto a = gen<T>(g), b = gen<T>(g);
  Block<T> dst(a), src(b);
  auto sd = dst.span();
  auto ss = src.span();
  g.note(type, " ", b.size(), " elements to ", a.size());
  auto want = a;
  size_t n  = std::min(a.size(), b.size());
  switch (g.range(0, 2)) {
  case 0:
    REQ(memcpy(sd, ss) == dst.p);
    break;
  case 1: { // all of the destination
    std::vector<T> big(a.size() + 2, T(9));
    for (size_t i = 0; i < b.size() && i < big.size(); ++i)
      big[i] = b[i];
    b = big;
    n = a.size();
    Block<T> bb(std::vector<T>(big.begin(), big.begin() + n));
    REQ(memcpy(sd, bb.p) == dst.p);
    break;
  }
  case 2: { // all of the source
    if (a.size() < b.size())
      g.discard();
    n = b.size();
    REQ(memcpy(dst.p, ss) == dst.p);
    break;
  }
  }
  std::copy(b.begin(), b.begin() + n, want.begin());
  REQ(dst.vec() == want, "memcpy ", type);
  g.nontrivial(n > 1);
  // memset
  T v = T(g.edgy());
  if (!a.empty() && g.flip()) {
    size_t off = g.draw(a.size() - 1), cnt = g.draw(a.size() - off);
    auto sub   = sd.subspan(off, cnt);
    memset(sub, v);
    std::fill(want.begin() + off, want.begin() + off + cnt, v);
    REQ(dst.vec() == want, "memset ", type);
  }
}
} // namespace

PROPERTY(comparison, 4, "same size, more than one element, content differs")
{
  g.scaled();
  g.huge();
  switch (g.range(0, 4)) {
  case 0:
    return compare<char>(g, "char");
  case 1:
    return compare<int>(g, "int");
  case 2:
    return compare<int64_t>(g, "int64_t");
  case 3:
    return compare<uint16_t>(g, "uint16_t");
  case 4:
    return compare<unsigned char>(g, "uchar");
  }
}

PROPERTY(copying, 4, "more than one element copied")
{
  g.scaled();
  g.huge();
  switch (g.range(0, 4)) {
  case 0:
    return copy<char>(g, "char");
  case 1:
    return copy<int>(g, "int");
  case 2:
    return copy<int64_t>(g, "int64_t");
  case 3:
    return copy<uint16_t>(g, "uint16_t");
  case 4: { // text
    std::string text = g.bytes(20, 6);
    std::vector<char> d(g.draw(20), '#');
    Block<char> dst(d);
    std::copy(text.begin(), text.begin() + std::min(text.size(), d.size()), d.begin());
    g.note("text \"", pbt::esc(text), "\" to ", d.size());
    Exact mem(text);
    if (g.flip()) {
      auto s = dst.span();
      REQ(memcpy(s, mem.view()) == dst.p);
    } else {
      MemSpan<void> s{dst.span()};
      REQ(memcpy(s, mem.view()) == dst.p);
    }
    REQ(dst.vec() == d, "text memcpy");
    char c = char(g.draw(255));
    MemSpan<void> s{dst.span()};
    auto k = g.draw(d.size());
    s.remove_prefix(k);
    memset(s, c);
    std::fill(d.begin() + k, d.end(), c);
    REQ(dst.vec() == d, "void memset");
    // any of the octet types.
    auto bytes = dst.span().rebind<unsigned char>();
    auto i     = g.draw(d.size()), cnt = g.draw(d.size());
    auto part  = bytes.subspan(i, cnt);
    MemSpan<unsigned char> r1;
    MemSpan<char> r2;
    switch (g.draw(2)) {
    case 0:
      r1 = memset(part, c);
      REQ(r1.data() == part.data() && r1.size() == part.size(), "memset result");
      break;
    case 1:
      r2 = memset(part.rebind<char>(), (unsigned char)(c));
      REQ(r2.size() == part.size(), "memset result");
      break;
    case 2:
      memset(part.rebind<signed char>(), (unsigned char)(c));
      break;
    }
    std::fill(d.begin() + i, d.begin() + std::min(i + cnt, d.size()), c);
    REQ(dst.vec() == d, "octet memset");
    g.nontrivial(text.size() > 1 && d.size() > 1);
    return;
  }
  }
}

namespace
{
template <typename T, typename U>
void
rebind(Src &g)
{
  size_t bytes = g.draw(96);
  bytes        = bytes / sizeof(T) * sizeof(T);
  alignas(16) static char mem[128];
  MemSpan<T> span(reinterpret_cast<T *>(mem), bytes / sizeof(T));
  g.note("rebind ", sizeof(T), " to ", sizeof(U), " ", bytes, " bytes");
  try {
    auto r = span.template rebind<U>();
    REQ(bytes % sizeof(U) == 0, "rebind should have failed");
    REQ_EQ(r.size(), bytes / sizeof(U), "rebind count");
    REQ_EQ(r.data_size(), bytes, "rebind");
    REQ(static_cast<void *>(r.data()) == mem);
    auto back = r.template rebind<T>();
    REQ(back.is_same(span), "rebind back");
  } catch (std::invalid_argument const &) {
    REQ(bytes % sizeof(U) != 0, "rebind failed");
  }
  auto v = span.template rebind<void>();
  REQ_EQ(v.size(), bytes, "rebind to void");
  REQ(v.data() == mem);
  auto vc = span.template rebind<void const>();
  REQ_EQ(vc.size(), bytes, "rebind to void const");
  REQ(vc.data() == mem);
  auto vd = span.rebind();
  REQ_EQ(vd.size(), bytes, "default rebind");
  auto c  = MemSpan<T const>(span);
  auto cd = c.rebind();
  REQ_EQ(cd.size(), bytes, "default const rebind");
  REQ((std::is_same_v<decltype(cd), MemSpan<void const>>));
  auto cv = v.template rebind<void const>();
  REQ_EQ(cv.size(), bytes);
  REQ(v.template rebind<T>().is_same(span), "void to typed");
  REQ(v.template rebind<void>().is_same(v));
  REQ(cv.template rebind<void const>().is_same(cv));
  REQ(cv.template rebind<T const>().is_same(c), "void const to typed");
  try {
    auto u = v.template rebind<U>();
    REQ(bytes % sizeof(U) == 0, "rebind of void should have failed");
    REQ_EQ(u.size(), bytes / sizeof(U));
  } catch (std::invalid_argument const &) {
    REQ(bytes % sizeof(U) != 0, "rebind of void failed");
  }
  try {
    auto p = v.template as_ptr<U>();
    REQ(bytes == sizeof(U) && static_cast<void *>(p) == mem);
    REQ(cv.template as_ptr<U>() == p);
  } catch (std::invalid_argument const &) {
    REQ(bytes != sizeof(U), "as_ptr");
  }
  try {
    auto p = cv.template as_ptr<U>();
    REQ(bytes == sizeof(U) && static_cast<void const *>(p) == mem, "const as_ptr");
  } catch (std::invalid_argument const &) {
    REQ(bytes != sizeof(U), "const as_ptr");
  }
  // implicit conversions
  MemSpan<void> v2{span};
  MemSpan<void const> v3{span}, v4{v2}, v5{c};
  REQ(v2.size() == bytes && v3.size() == bytes && v4.size() == bytes && v5.size() == bytes, "conversion");
  REQ(v2.data() == mem && v3.data() == mem && v4.data() == mem && v5.data() == mem, "conversion");
  MemSpan<void> v6;
  v6 = span;
  MemSpan<void const> v7;
  v7 = span;
  REQ(v6.size() == bytes && v7.size() == bytes, "assignment");
  v7 = v6;
  REQ(v7.size() == bytes && v7.data() == mem, "assignment");
  g.nontrivial(bytes > sizeof(T));
}
} // namespace
PROPERTY(rebinding, 3, "more than one element")
{
  g.scaled();
  g.huge();
  switch (g.range(0, 5)) {
  case 0:
    return rebind<char, int>(g);
  case 1:
    return rebind<int, char>(g);
  case 2:
    return rebind<int, int64_t>(g);
  case 3:
    return rebind<int64_t, uint16_t>(g);
  case 4:
    return rebind<uint16_t, int>(g);
  case 5:
    return rebind<unsigned char, int64_t>(g);
  }
}

namespace
{
struct alignas(16) A16 {
  char x[48];
};
struct S12 {
  int a, b, c;
};
} // namespace
PROPERTY(alignment, 3, "the span was not aligned to start with and is larger than the padding")
{
  g.scaled();
  g.huge();
  alignas(256) static char mem[1024];
  size_t off = g.draw(300), n = g.draw(700);
  size_t align = size_t(1) << g.draw(8);
  size_t obj   = align * (1 + g.draw(3));
  auto up      = [&](size_t a) { return (off + a - 1) / a * a; };
  bool cst     = g.flip();
  auto check   = [&](void const *p, size_t size, size_t a, size_t o, char const *what) {
    size_t s = up(a);
    REQ(static_cast<char const *>(p) == mem + s, what, " pointer offset ", static_cast<char const *>(p) - mem, " expected ", s, " from ", off, " align ", a);
    size_t want = off + n > s ? (off + n - s) / o * o : 0;
    REQ_EQ(size, want, what, " size, from ", off, " +", n, " align ", a, " object ", o);
  };
  g.note("offset ", off, " size ", n, " align ", align, " object ", obj);
  if (cst) {
    MemSpan<void const> s(mem + off, n);
    auto r1 = s.align(align);
    check(r1.data(), r1.size(), align, 1, "align");
    auto r2 = s.align(align, obj);
    check(r2.data(), r2.size(), align, obj, "align objects");
    auto r3 = s.align<A16>();
    check(r3.data(), r3.size(), 16, 48, "align type");
    r3 = s.align<S12>();
    check(r3.data(), r3.size(), 4, 12, "align type");
  } else {
    MemSpan<void> s(mem + off, n);
    auto r1 = s.align(align);
    check(r1.data(), r1.size(), align, 1, "align");
    auto r2 = s.align(align, obj);
    check(r2.data(), r2.size(), align, obj, "align objects");
    auto r3 = s.align<double>();
    check(r3.data(), r3.size(), 8, 8, "align type");
    auto typed = s.align<S12>().rebind<S12>();
    check(typed.data(), typed.data_size(), 4, 12, "align rebind");
  }
  g.nontrivial(off % align != 0 && up(align) < off + n);
}

// make / destroy run exactly once per element; container construction refers to the container.
PROPERTY(objects, 1, "more than one element")
{
  g.scaled();
  g.huge();
  size_t n  = g.draw(9);
  auto *mem = static_cast<char *>(malloc(n * sizeof(pbt::Tracked)));
  swoc::unique_malloc<char> holder(mem);
  int v = int(g.draw(1000));
  {
    MemSpan<void> raw(mem, n * sizeof(pbt::Tracked));
    auto span = raw.rebind<pbt::Tracked>();
    span.make(v);
    REQ_EQ(pbt::Tracked::live, long(n), "make");
    for (auto const &t : span)
      REQ_EQ(t.get(), v, "made");
    span.destroy();
    REQ_EQ(pbt::Tracked::live, 0l, "destroy");
  }
  { // every element is from the arguments, even if those are temporaries with content to be moved.
    swoc::unique_malloc<char> text_mem(static_cast<char *>(malloc(n * sizeof(std::string))));
    auto span = MemSpan<void>(text_mem.get(), n * sizeof(std::string)).rebind<std::string>();
    std::string const text(g.draw(40), 'q');
    size_t const k = g.draw(text.size());
    auto const how = g.draw(3);
    switch (how) {
    case 0:
      span.make(std::string(text));
      break;
    case 1:
      span.make(text);
      break;
    case 2:
      span.make(std::string(text), k); // constructor with more arguments.
      break;
    default:
      span.make(text.c_str());
      break;
    }
    std::vector<std::string> got(span.begin(), span.end());
    span.destroy();
    for (auto const &item : got)
      REQ_EQ(item, how == 2 ? text.substr(k) : text, "made element");
  }
  std::vector<int> vec(n);
  std::iota(vec.begin(), vec.end(), v);
  MemSpan<int> vs{vec};
  REQ(vs.data() == vec.data() && vs.size() == vec.size());
  std::vector<int> const &cvec = vec;
  MemSpan<int const> cvs{cvec};
  REQ(cvs.data() == vec.data() && cvs.size() == vec.size());
  std::string str(n, 'x');
  MemSpan<char> ss{str};
  MemSpan sd{str};
  MemSpan<void> sv{str};
  MemSpan<void const> scv{std::string_view(str)};
  REQ(ss.size() == n && sd.size() == n && sv.size() == n && scv.size() == n);
  REQ(ss.data() == str.data() && sv.data() == str.data());
  MemSpan<void const> vcv{vec};
  REQ_EQ(vcv.size(), n * sizeof(int));
  std::array<int, 5> arr{{1, 2, 3, 4, 5}};
  MemSpan<int> as{arr};
  MemSpan<int const> cas{arr};
  REQ(as.size() == 5 && as.data() == arr.data() && cas.size() == 5);
  int ca[7] = {};
  MemSpan<int> cs{ca};
  MemSpan<void> vs2{ca};
  REQ(cs.size() == 7 && vs2.size() == sizeof(ca));
  MemSpan<void const> vs3{ca};
  REQ(vs3.size() == sizeof(ca) && vs3.data() == ca && vs2.data() == ca && cs.data() == ca);
  // literal strings are without the terminator.
  static char const lit[] = "literal";
  MemSpan<char const> ls{lit};
  MemSpan<void const> lvs{lit};
  REQ(ls.size() == 7 && ls.data() == lit, "literal");
  REQ(lvs.size() == 7 && lvs.data() == lit, "literal as void");
  MemSpan<char const> e1{""};
  MemSpan<void const> e2{""};
  REQ(e1.empty() && e2.empty(), "empty literal");
  static char const raw3[3] = {'a', 0, 'b'}; // not a terminated string, keep all of it.
  REQ(MemSpan<char const>{raw3}.size() == 3 && MemSpan<void const>{raw3}.size() == 3, "character array");
  char buff[5] = {'a', 'b', 'c', 'd', 0}; // not const, it is a buffer.
  REQ(MemSpan<char>{buff}.size() == 5 && MemSpan<void>{buff}.size() == 5, "buffer");
  g.note(n, " elements");
  g.nontrivial(n > 1);
}
