// P02 - scoped value changes are always undone, and combined functors select as their parts.
#include <cstddef>
#include "util.h"
#include "swoc/swoc_meta.h"
#include <map>
#include <optional>
#include <stdexcept>
#include <variant>
#include <vector>
using pbt::Src;
using pbt::Tracked;
namespace meta = swoc::meta;

namespace
{
// ---------------------------------------------------------------- let
struct Unwind {
};
/// Countdown to a failing copy, negative for never.
int COPIES = -1;
/// Something with a copy that can fail.
struct Fragile {
  std::string s;
  explicit Fragile(int n) : s("value that is not in the object itself " + std::to_string(n)) {}
  Fragile(Fragile const &that) : s((count(), that.s)) {}
  Fragile(Fragile &&that) noexcept : s(std::move(that.s)) { that.s = "moved"; }
  Fragile &
  operator=(Fragile const &that)
  {
    count();
    s = that.s;
    return *this;
  }
  Fragile &
  operator=(Fragile &&that) noexcept
  {
    if (&that != this) {
      s      = std::move(that.s);
      that.s = "moved";
    }
    return *this;
  }
  static void
  count()
  {
    if (COPIES == 0)
      throw std::runtime_error("copy");
    if (COPIES > 0)
      --COPIES;
  }
  bool
  operator==(Fragile const &that) const
  {
    return s == that.s;
  }
};
template <typename T>
T
make(int n)
{
  if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
    return std::make_unique<int>(n);
  else if constexpr (std::is_same_v<T, std::string>)
    return "text that does not fit in the string object " + std::to_string(n);
  else if constexpr (std::is_same_v<T, std::vector<int>>)
    return std::vector<int>(1 + n % 7, n);
  else
    return T(n);
}
template <typename T>
bool
is(T const &t, int n)
{
  if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
    return t && *t == n;
  else
    return t == make<T>(n);
}

/// Variables that are changed in scopes.
template <typename T> struct Scopes {
  static constexpr unsigned N = 4;
  Src &g;
  std::vector<T> vars;
  std::vector<int> model; ///< current value
  unsigned total = 0, failed = 0, unwound = 0, deepest = 0;

  explicit Scopes(Src &g) : g(g)
  {
    for (unsigned i = 0; i < N; ++i) {
      vars.push_back(make<T>(i));
      model.push_back(i);
    }
  }
  void
  check(char const *what)
  {
    for (unsigned i = 0; i < N; ++i)
      REQ(is(vars[i], model[i]), "variable ", i, " ", what);
  }
  void
  inside(unsigned depth)
  {
    this->check("on entry");
    for (unsigned n = 0; g.more(3, n, 5);) {
      ++n;
      switch (g.weighted({2, 4, 1})) {
      case 0: { // change it directly - only lasts until the scope is done.
        auto i = g.draw(N - 1);
        int v  = 100 + int(g.draw(1000));
        vars[i]  = make<T>(v);
        model[i] = v;
        g.note(std::string(depth * 2, ' '), "set ", i, " to ", v);
      } break;
      case 1:
        if (depth < 8 && total < 40)
          this->scope(depth + 1);
        break;
      case 2:
        if (depth && g.chance(40)) {
          ++unwound;
          g.note(std::string(depth * 2, ' '), "throw");
          throw Unwind{};
        }
        break;
      }
      this->check("after");
    }
  }
  void
  scope(unsigned depth)
  {
    ++total;
    deepest    = std::max(deepest, depth);
    unsigned i = g.draw(N - 1);
    int v      = 100 + int(g.draw(1000));
    int was    = model[i];
    bool catch_p = g.flip();
    unsigned kind;
    if constexpr (std::is_copy_constructible_v<T>)
      kind = g.draw(3);
    else
      kind = g.draw(1);
    if (kind == 2)
      v = was;
    unsigned j = g.draw(N - 1);
    if (kind == 3)
      v = model[j];
    bool fail = false;
    if constexpr (std::is_same_v<T, Fragile>) {
      if (g.chance(30)) {
        COPIES = int(g.draw(2));
        fail   = true;
      }
    }
    g.note(std::string(depth * 2, ' '), "scope of ", i, " = ", v, " kind ", kind, fail ? " can fail" : "");
    auto body = [&] {
      COPIES   = -1;
      model[i] = v;
      this->inside(depth);
    };
    auto mine = model;
    try {
      switch (kind) {
      case 0: { // movable value
        meta::let<T> save(vars[i], make<T>(v));
        body();
      } break;
      case 1: {
        T value = make<T>(v);
        meta::let save(vars[i], std::move(value));
        body();
      } break;
      case 2: // the variable itself, so only the restoration counts.
        if constexpr (std::is_copy_constructible_v<T>) {
          meta::let save(vars[i], vars[i]);
          body();
        }
        break;
      case 3: // an lvalue, possibly the variable itself.
        if constexpr (std::is_copy_constructible_v<T>) {
          T const &value = vars[j];
          meta::let save(vars[i], value);
          body();
          REQ(i == j || is(value, model[j]), "value used is changed");
        }
        break;
      }
    } catch (Unwind const &) {
      model[i] = was;
      this->check("after an exception");
      if (!catch_p && depth > 1)
        throw;
      return;
    } catch (std::runtime_error const &) {
      // Not started.
      COPIES = -1;
      ++failed;
      REQ(model == mine);
      this->check("after a failed start");
      return;
    }
    COPIES   = -1;
    model[i] = was;
    this->check("after the scope");
  }
};

template <typename T>
void
scopes(Src &g)
{
  Scopes<T> s(g);
  s.inside(0);
  g.label("nested 3+", s.deepest > 2);
  g.label("unwound", s.unwound);
  g.label("failed to start", s.failed);
  g.nontrivial(s.deepest > 1);
}

// ---------------------------------------------------------------- vary
struct A {
  int n;
};
struct B : A {
};
struct C {
  operator A() const { return A{77}; }
};

// ---------------------------------------------------------------- cases
struct Plain {
};
struct HasItem {
  int item;
};
struct HasSize {
  size_t
  size() const
  {
    return 4;
  }
};
struct Both : HasItem, HasSize {
};
template <typename T>
auto
select(T const &, meta::CaseTag<0>) -> std::string
{
  return "plain";
}
template <typename T>
auto
select(T const &t, meta::CaseTag<1>) -> decltype(t.item, std::string())
{
  return "item " + std::to_string(t.item);
}
template <typename T>
auto
select(T const &t, meta::CaseTag<5>) -> decltype(t.size(), std::string())
{
  return "size " + std::to_string(t.size());
}
template <typename T>
auto
top(T const &, meta::CaseTag<9>) -> int
{
  return 9;
}
template <typename T>
auto
top(T const &, meta::CaseTag<8>) -> int
{
  return 8;
}
} // namespace

PROPERTY(scoped, 4, "scopes are nested")
{
  long live = Tracked::live;
  COPIES    = -1;
  switch (g.draw(5)) {
  case 0:
    scopes<int>(g);
    break;
  case 1:
    scopes<std::string>(g);
    break;
  case 2:
    scopes<std::unique_ptr<int>>(g);
    break;
  case 3:
    scopes<Tracked>(g);
    break;
  case 4:
    scopes<std::vector<int>>(g);
    break;
  case 5:
    scopes<Fragile>(g);
    break;
  }
  REQ_EQ(Tracked::live, live, "objects leaked or destroyed twice");
}

PROPERTY(selection, 1, "always")
{
  g.nontrivial();
  std::string s = g.str("abc", 6, 3);
  int n         = int(g.edgy());
  using V       = std::variant<int, bool, char, double, std::string, std::vector<int>>;
  V v;
  std::string want;
  switch (g.draw(5)) {
  case 0:
    v    = n;
    want = "int " + std::to_string(n);
    break;
  case 1:
    v    = bool(n & 1);
    want = n & 1 ? "true" : "false";
    break;
  case 2:
    v    = char('a' + (n & 7));
    want = std::string("char ") + char('a' + (n & 7));
    break;
  case 3:
    v    = n / 2.0;
    want = "double " + std::to_string(n / 2.0);
    break;
  case 4:
    v    = s;
    want = "text " + s;
    break;
  case 5:
    v    = std::vector<int>{n, 1};
    want = "other";
    break;
  }
  int calls = 0;
  auto visitor = meta::vary{[&](int n) {
                              ++calls;
                              return "int " + std::to_string(n);
                            },
                            [&](bool b) {
                              ++calls;
                              return std::string(b ? "true" : "false");
                            },
                            [&](char c) {
                              ++calls;
                              return std::string("char ") + c;
                            },
                            [&](double d) {
                              ++calls;
                              return "double " + std::to_string(d);
                            },
                            [&](std::string const &s) {
                              ++calls;
                              return "text " + s;
                            },
                            [&](auto const &) {
                              ++calls;
                              return std::string("other");
                            }};
  REQ_EQ(std::visit(visitor, v), want);
  REQ_EQ(calls, 1);
  REQ_EQ(std::visit(std::as_const(visitor), v), want);
  // By reference, to what is in the variant.
  std::variant<int, std::string> w;
  if (g.flip())
    w = n & 0xFFFF;
  else
    w = s;
  std::visit(meta::vary{[](int &n) { ++n; }, [](std::string &s) { s += '!'; }}, w);
  if (w.index())
    REQ_EQ(std::get<1>(w), s + "!");
  else
    REQ_EQ(std::get<0>(w), (n & 0xFFFF) + 1);
  // State in the functors is in the combination.
  auto counter = meta::vary{[k = 0](int d) mutable { return k += d; }, [k = 100](char) mutable { return k++; }};
  int sum = 0, chars = 100;
  for (unsigned i = 0; g.more(4, i, 10); ++i) {
    if (g.flip()) {
      int d = int(g.draw(9));
      sum += d;
      REQ_EQ(counter(d), sum);
    } else {
      REQ_EQ(counter('x'), chars++);
    }
  }
  // Ranking of overloads.
  auto rank = meta::vary{[](A const &a) { return a.n; }, [](B const &b) { return b.n + 1000; }};
  int k     = n & 0xFF;
  REQ_EQ(rank(A{k}), k);
  REQ_EQ(rank(B{{k}}), k + 1000);
  auto conv = meta::vary{[](A const &a) { return a.n; }, [](std::string_view) { return -1; }};
  REQ_EQ(conv(C{}), 77);
  REQ_EQ(conv("x"), -1);

  // The highest valid case is used.
  REQ_EQ(select(Plain{}, meta::CaseArg), "plain");
  REQ_EQ(select(HasItem{k}, meta::CaseArg), "item " + std::to_string(k));
  REQ_EQ(select(HasSize{}, meta::CaseArg), "size 4");
  REQ_EQ(select(Both{{k}, {}}, meta::CaseArg), "size 4");
  REQ_EQ(select(Both{{k}, {}}, meta::CaseTag<4>{}), "item " + std::to_string(k));
  REQ_EQ(select(Both{{k}, {}}, meta::CaseTag<5>{}), "size 4");
  REQ_EQ(select(Both{{k}, {}}, meta::CaseTag<0>{}), "plain");
  REQ_EQ(top(1, meta::CaseArg), 9);
  REQ_EQ(top(1, meta::CaseTag<8>{}), 8);
  unsigned tag = meta::CaseTag<7>::value;
  REQ_EQ(tag, 7u);

  // Forwards exactly.
  REQ_EQ(meta::eraser<void>(s), s);
  std::string t{s};
  REQ(&meta::eraser<int>(t) == &t);
  std::string moved = meta::eraser<int>(std::move(t));
  REQ_EQ(moved, s);
  // Type predicates.
  bool facts[] = {meta::is_any_of<int, char, int>::value,        !meta::is_any_of<int>::value,     !meta::is_any_of<int, unsigned, long>::value,
                  meta::is_any_of_v<char, char, int>,            !meta::is_any_of_v<int, int const, int &>, meta::is_homogenous<int, int, int>::value,
                  !meta::is_homogenous<int, int, unsigned>::value, std::is_same_v<meta::is_homogenous<int, int>::type, int>,
                  meta::type_list<int, bool>::size == 2,         meta::type_list<>::size == 0,     meta::type_list<int, bool>::contains<bool>,
                  !meta::type_list<int, bool>::contains<char>,   std::is_same_v<meta::type_list<int, bool>::apply<std::variant>, std::variant<int, bool>>};
  for (unsigned i = 0; i < sizeof(facts); ++i)
    REQ(facts[i], "fact ", i);
}
