// C03 - Lexicon against plain maps.
#include "util.h"
#include "swoc/Lexicon.h"
#include "swoc/bwf_std.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using pbt::Src;
using swoc::TextView;

namespace
{
enum class Tag : int {};
enum class Wide : uint64_t {};
std::string
lower(std::string s)
{
  for (char &c : s)
    if (c >= 'A' && c <= 'Z')
      c += 'a' - 'A';
  return s;
}
std::string
recase(Src &g, std::string s)
{
  for (char &c : s)
    if (isalpha((unsigned char)c) && g.flip())
      c ^= 0x20;
  return s;
}
template <typename E> struct Model {
  struct Name {
    std::string text;
    E value;
  };
  std::map<std::string, Name> names; ///< lower case -> as defined
  std::map<E, std::string> primary;
  int name_mode = 0; // 0 throw, 1 fixed, 2 handler
  std::string name_default;
  int value_mode = 0;
  E value_default{};
  std::string
  add(E v, std::string const &s)
  {
    if (!names.emplace(lower(s), Name{s, v}).second)
      return "duplicate";
    primary.emplace(v, s);
    return "";
  }
};
std::string const POOL[] = {"none",  "value of ", "Unknown",
                            "a rather longer name which is not found in any short string optimization of the standard library"};

template <typename E>
std::string
show(E e)
{
  return std::to_string((unsigned long long)e);
}
/// The text of a lexicon is that of its names and values.
template <typename E>
void
check_text(swoc::Lexicon<E> const &lex)
{
  using U = std::conditional_t<std::is_signed_v<std::underlying_type_t<E>>, intmax_t, uintmax_t>;
  std::string names, numbers, both;
  bool sep = false;
  for (auto const &[v, s] : lex) {
    auto c   = sep ? "," : "";
    names   += c + std::string(s);
    numbers += c + std::to_string(U(v));
    both    += c + ("[" + std::string(s)) + "," + std::to_string(U(v)) + "]";
    sep      = true;
  }
  std::string out;
  REQ_EQ(swoc::bwprint(out, "{:s}", lex), lower(names), "names"); // type "s" is lower case
  REQ_EQ(swoc::bwprint(out, "{:d}", lex), numbers, "values");
  REQ_EQ(swoc::bwprint(out, "{}", lex), both, "default text");
}
template <typename E>
void
check(Src &g, swoc::Lexicon<E> const &lex, Model<E> const &m, std::vector<E> const &values, char const *what)
{
  using L = swoc::Lexicon<E>;
  REQ_EQ(lex.count(), m.primary.size(), what, ": count");
  // every name in any case.
  for (auto &[k, n] : m.names) {
    std::string s = m.names.size() > 400 ? n.text : recase(g, n.text);
    Exact x(s);
    REQ(lex[TextView(x.view())] == n.value, what, ": value of name ", pbt::esc(s));
    REQ(lex[TextView(n.text)] == n.value, what, ": value of name as defined ", pbt::esc(n.text));
  }
  for (E v : values) {
    auto p = m.primary.find(v);
    if (p != m.primary.end()) {
      REQ_EQ(std::string(lex[v]), p->second, what, ": primary name of ", show(v));
      REQ(lex[lex[v]] == v, what, ": round trip of value ", show(v));
      std::string s = m.names.size() > 400 ? p->second : recase(g, p->second);
      TextView norm = lex[lex[TextView(s)]];
      REQ(norm.data() == lex[v].data() && norm.size() == lex[v].size(), what, ": normalized pointer");
    } else {
      bool thrown = false;
      std::string got;
      try {
        got = std::string(lex[v]);
      } catch (std::domain_error const &) {
        thrown = true;
      }
      REQ_EQ(thrown, m.name_mode == 0, what, ": exception for unknown value ", show(v));
      if (m.name_mode == 1)
        REQ_EQ(got, m.name_default, what, ": default name for ", show(v));
      else if (m.name_mode == 2)
        REQ_EQ(got, POOL[uint64_t(v) % 4], what, ": handler name for ", show(v));
    }
  }
  // unknown names.
  for (unsigned i = 0; i < 3; ++i) {
    std::string s = g.str("abAB_\xe9", 5, 2) + (i ? "~" : "");
    if (m.names.count(lower(s)))
      continue;
    bool thrown = false;
    E got{};
    Exact x(s);
    try {
      got = lex[TextView(x.view())];
    } catch (std::domain_error const &) {
      thrown = true;
    }
    REQ_EQ(thrown, m.value_mode == 0, what, ": exception for unknown name ", pbt::esc(s));
    if (m.value_mode == 1)
      REQ(got == m.value_default, what, ": default value for ", pbt::esc(s));
    else if (m.value_mode == 2)
      REQ(got == E(s.size() + 1000), what, ": handler value for ", pbt::esc(s));
  }
  // iteration
  std::map<E, std::string> seen;
  size_t n = 0;
  std::vector<typename L::value_iterator> spots;
  for (auto spot = lex.begin(); spot != lex.end(); ++spot) {
    spots.push_back(spot);
    REQ(n++ < 100000, what, ": iteration does not end");
    seen.emplace(std::get<L::VALUE_IDX>(*spot), std::string(std::get<L::NAME_IDX>(*spot)));
    REQ(spot->_value == std::get<0>(*spot), what, ": iterator access");
  }
  REQ_EQ(n, m.primary.size(), what, ": number of values iterated");
  REQ(seen == m.primary, what, ": values and primary names iterated");
  for (size_t i = spots.size(); i-- > 1;) {
    auto s = spots[i];
    REQ(&*--s == &*spots[i - 1], what, ": iterator decrement");
    auto t = spots[i];
    REQ(t-- == spots[i] && t == spots[i - 1], what, ": iterator post decrement");
    REQ(t++ == spots[i - 1] && t == spots[i], what, ": iterator post increment");
  }
  n = 0;
  std::map<std::string, E> by_name;
  for (auto const &pair : lex.by_names()) {
    REQ(n++ < 100000, what, ": name iteration does not end");
    std::string text(std::get<L::NAME_IDX>(pair));
    by_name.emplace(text, std::get<L::VALUE_IDX>(pair));
    auto spot = m.names.find(lower(text));
    REQ(spot != m.names.end() && spot->second.text == text && spot->second.value == std::get<0>(pair), what, ": name iterated ",
        pbt::esc(text));
  }
  REQ_EQ(n, m.names.size(), what, ": number of names iterated");
  REQ_EQ(by_name.size(), m.names.size(), what, ": distinct names iterated");
  n = 0;
  for (auto spot = lex.begin_names(), prev = spot; spot != lex.end_names(); ++n) {
    if (n) {
      auto t = spot;
      REQ(--t == prev, what, ": name iterator decrement");
      t = spot;
      REQ(t-- == spot && t == prev, what, ": name iterator post decrement");
    }
    prev = spot;
    REQ(spot++ == prev, what, ": name iterator post increment");
  }
  REQ_EQ(n, m.names.size(), what, ": number of names iterated by post increment");
}
std::string
gen_name(Src &g)
{
  switch (g.weighted({6, 2, 1})) {
  case 0:
    return g.str(std::string_view("abAB_\0", g.chance(10) ? 6 : 5), 4, 2);
  case 1:
    return g.str("abcxyzABCXYZ0123456789-. {}:\xe9\xc9\xff[@`", 12, 5);
  default:
    return g.pick({std::string(), std::string(40, 'q'), std::string("TRUE"), std::string("true"), std::string(700, 'z')}) +
           g.str("ab", 1);
  }
}
template <typename E>
void
history(Src &g)
{
  using L = swoc::Lexicon<E>;
  using D = typename L::Default;
  std::vector<E> values;
  for (unsigned i = 0; i < 6; ++i)
    values.push_back(E(i));
  values.push_back(E(1000));
  values.push_back(E(-7));
  values.push_back(E(sizeof(E) == 8 ? ~uint64_t(0) : 0x7fffffffu));
  if (sizeof(E) == 8)
    values.push_back(E(uint64_t(1) << 32)); // not the same as 0
  Model<E> m;
  std::unique_ptr<L> lex;
  std::vector<std::string> keep; // names used by constructors.
  auto gen_value   = [&] { return values[g.draw(values.size() - 1)]; };
  auto gen_default = [&](int &kind) {
    kind = int(g.draw(4));
    return kind;
  };
  // Names go away as soon as the call is done.
  auto make_default = [&](int kind, std::string const &text, E v) -> D {
    switch (kind) {
    case 1:
      return D{v};
    case 2:
      return D{TextView(text)};
    case 3:
      return D{typename L::UnknownNameHandler([](TextView s) { return E(s.size() + 1000); })};
    case 4:
      return D{typename L::UnknownValueHandler([](E v) { return TextView(POOL[uint64_t(v) % 4]); })};
    }
    return {};
  };
  auto model_default = [&](int kind, std::string const &text, E v) {
    if (kind == 1) {
      m.value_mode    = 1;
      m.value_default = v;
    } else if (kind == 2) {
      m.name_mode    = 1;
      m.name_default = text;
    } else if (kind == 3)
      m.value_mode = 2;
    else if (kind == 4)
      m.name_mode = 2;
  };
  unsigned conflicts = 0, secondary = 0, redefined = 0;
  { // construct
    int k1, k2;
    gen_default(k1);
    gen_default(k2);
    E v1 = gen_value(), v2 = gen_value();
    unsigned form = unsigned(g.draw(4));
    std::unique_ptr<std::string> t1(new std::string(gen_name(g))), t2(new std::string(gen_name(g)));
    std::string d1 = *t1, d2 = *t2;
    std::vector<std::unique_ptr<std::string>> n;
    std::vector<E> v;
    std::set<std::string> used;
    for (unsigned i = 0; i < 4; ++i) {
      std::string s = gen_name(g);
      while (!used.insert(lower(s)).second)
        s += char('a' + i);
      n.emplace_back(new std::string(s));
      v.push_back(gen_value());
    }
    auto N = [&](unsigned i) { return TextView(*n[i]); };
    D x1 = make_default(k1, *t1, v1), x2 = make_default(k2, *t2, v2);
    g.note("form ", form, " defaults ", k1, " ", k2);
    switch (form) {
    case 0:
      lex.reset(new L);
      k1 = k2 = 0;
      break;
    case 1:
      lex.reset(k2 ? new L(x1, x2) : new L(x1));
      break;
    case 2: {
      lex.reset(new L(
        typename L::with{
          {v[0], N(0)},
          {v[1], N(1)},
          {v[2], N(2)}
      },
        x1, x2));
      for (unsigned i = 0; i < 3; ++i)
        m.add(v[i], *n[i]);
      break;
    }
    case 3:
      lex.reset(new L(
        typename L::with_multi{
          {v[0], {N(0), N(1)}},
          {v[2], {N(2)}      },
          {v[3], {N(3)}      }
      },
        x1, x2));
      m.add(v[0], *n[0]);
      m.add(v[0], *n[1]);
      m.add(v[2], *n[2]);
      m.add(v[3], *n[3]);
      ++secondary;
      break;
    case 4: { // conflict
      bool thrown = false;
      try {
        L bad(typename L::with{
          {v[0], N(0)},
          {v[1], N(0)}
        });
      } catch (std::invalid_argument const &) {
        thrown = true;
      }
      REQ(thrown, "duplicate names in constructor");
      lex.reset(new L(
        typename L::with{
          {v[0], N(0)}
      },
        x1, x2));
      m.add(v[0], *n[0]);
      ++conflicts;
      break;
    }
    }
    model_default(k1, d1, v1);
    model_default(k2, d2, v2);
    // all of the texts go away here.
  }
  check(g, *lex, m, values, "constructed");
  for (unsigned step = 0; g.more(10, step, 40); ++step) {
    switch (g.weighted({10, 3, 1})) {
    case 0: { // define
      E v        = gen_value();
      unsigned k = 1 + unsigned(g.draw(3));
      std::vector<std::string> names;
      for (unsigned i = 0; i < k; ++i) {
        if (g.chance(10) && !m.names.empty()) {
          auto spot = m.names.begin();
          std::advance(spot, g.draw(m.names.size() - 1));
          names.push_back(recase(g, spot->second.text));
        } else
          names.push_back(gen_name(g));
      }
      g.note("define ", show(v), " ", k, " ", pbt::esc(names[0]));
      redefined  += m.primary.count(v);
      bool bad    = false;
      Model<E> m2 = m;
      for (auto &s : names) {
        if (!m2.add(v, s).empty()) {
          bad = true;
          break;
        }
        secondary += m2.primary[v] != s;
      }
      bool thrown = false;
      std::vector<std::unique_ptr<Exact>> x;
      for (auto &s : names)
        x.emplace_back(new Exact(s));
      auto N = [&](unsigned i) { return TextView(x[i]->view()); };
      try {
        switch (k) {
        case 1:
          switch (g.draw(3)) {
          case 0:
            lex->define(v, N(0));
            break;
          case 1:
            lex->define(v, {N(0)});
            break;
          case 2:
            lex->define(v, std::string(names[0]));
            break;
          default:
            lex->define(typename L::Pair{v, N(0)});
            break;
          }
          break;
        case 2:
          switch (g.draw(2)) {
          case 0:
            lex->define(v, N(0), N(1));
            break;
          case 1:
            lex->define(v, {N(0), N(1)});
            break;
          default:
            lex->define(typename L::Definition{v, {N(0), N(1)}});
            break;
          }
          break;
        case 3:
          lex->define(v, N(0), std::string_view(N(1)), N(2));
          break;
        default:
          lex->define(v, {N(0), N(1), N(2), N(3)});
          break;
        }
      } catch (std::invalid_argument const &) {
        thrown = true;
      }
      REQ_EQ(thrown, bad, "definition of names rejected: ", pbt::esc(names[0]), " and ", k - 1, " more");
      conflicts += bad;
      // On conflict earlier names of the same definition are or aren't defined.
      if (!bad || lex->count() != m.primary.size())
        m = m2;
      else {
        size_t n = 0;
        for (auto const &p : lex->by_names()) {
          (void)p;
          ++n;
        }
        if (n != m.names.size())
          m = m2;
      }
      break;
    }
    case 1: {
      int k;
      gen_default(k);
      E v = gen_value();
      std::string t = gen_name(g);
      g.note("default ", k);
      {
        Exact x(t);
        D d = k == 2 ? D{TextView(x.view())} : make_default(k, t, v);
        REQ(&lex->set_default(d) == lex.get(), "return");
      }
      model_default(k, t, v);
      break;
    }
    case 2: {
      g.note("move");
      std::unique_ptr<L> n(new L(std::move(*lex)));
      lex = std::move(n);
      break;
    }
    }
    check(g, *lex, m, values, "after change");
  }
  bool thrown = false;
  try {
    lex->define(E(3), std::initializer_list<TextView>{});
  } catch (std::invalid_argument const &) {
    thrown = true;
  }
  REQ(thrown, "no names");
  check(g, *lex, m, values, "at end");
  check_text(*lex);
  g.nontrivial(m.names.size() > 3 && secondary && redefined);
  g.label("conflict", conflicts);
  g.label("handlers", m.name_mode == 2 || m.value_mode == 2);
}
} // namespace

PROPERTY(enumeration, 3, "more than 3 names, a secondary name, and a value defined again")
{
  g.huge();
  history<Tag>(g);
}
PROPERTY(wide, 1, "more than 3 names, a secondary name, and a value defined again")
{
  history<Wide>(g);
}
// Many names, so that the tables expand.
PROPERTY(many, 1, "more than 60 names")
{
  swoc::Lexicon<Tag> lex;
  Model<Tag> m;
  std::vector<Tag> values;
  unsigned n = unsigned(g.draw(300)), mod = 1 + unsigned(g.draw(200));
  if (size_t k = g.bulk(4, 3000)) {
    n   = unsigned(k);
    mod = n - unsigned(g.draw(n / 2));
  }
  g.nontrivial(n > 60);
  for (unsigned i = 0; i < n; ++i) {
    std::string s = g.pick({"n", "Name ", "x-", ""}) + std::to_string(n > 300 ? i * 37 % 10007 : i * 37 % 1009);
    Tag v         = Tag(i % mod);
    bool dup      = m.names.count(lower(s));
    bool thrown   = false;
    try {
      lex.define(v, TextView(s));
    } catch (std::invalid_argument const &) {
      thrown = true;
    }
    REQ_EQ(thrown, dup, "duplicate ", s);
    if (!dup)
      m.add(v, s);
  }
  for (unsigned i = 0; i < mod + 2; ++i)
    values.push_back(Tag(i));
  check(g, lex, m, values, "all");
  check_text(lex);
}
