// Model of Errata, and the operation sequences on it, shared by E01 and E02.
#pragma once
#include "pbt.h"
#include "util.h"
#include "swoc/Errata.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_ip.h"
#include <optional>
#include <memory>

using swoc::Errata;
using swoc::TextView;
using Severity = Errata::Severity;

// A category of error codes that is not one of the standard ones.
struct Category : std::error_category {
  char const *
  name() const noexcept override
  {
    return "pbt";
  }
  std::string
  message(int n) const override
  {
    return "Code<" + std::to_string(n) + ">";
  }
};
inline Category const CATEGORY;

struct MNote {
  std::string text;
  unsigned level = 0;
  std::optional<unsigned> sev;
};
struct Model {
  std::vector<MNote> notes;
  std::optional<unsigned> sev;
  std::error_code code;
  std::string glue = "\n", s_glue = ": ", a_s_glue = ": ", indent = "  ";
  bool final_p = true;
  bool touched = false; ///< Something was put in (including only the layout).

  bool
  content() const
  {
    return !notes.empty() || sev || code;
  }
  void
  update(unsigned s)
  {
    touched = true;
    if (!sev || *sev < s)
      sev = s;
  }
};

inline std::vector<std::string> NAMES;
inline std::vector<TextView> NAME_VIEWS;
inline std::vector<std::string> SUNK[4]; ///< Text seen by each sink.
inline bool SINKING = false;

inline unsigned DEFAULT_S = 2, FAILURE_S = 2, FILTER_S = 0;

/// The configuration an application gets if it sets nothing.
struct AsShipped {
  Severity dflt    = Errata::DEFAULT_SEVERITY;
  Severity failure = Errata::FAILURE_SEVERITY;
  Severity filter  = Errata::FILTER_SEVERITY;
  swoc::MemSpan<TextView const> names = Errata::SEVERITY_NAMES;
};

/// Choose the global configuration.
inline void
configure(pbt::Src &g)
{
  static AsShipped const initial;
  static bool once = [] {
    // Every form of registration.
    auto seen = [](int i, Errata const &e) {
      if (SINKING) {
        std::string s;
        swoc::bwprint(s, "{}", e);
        SUNK[i].push_back(s);
      }
    };
    struct Subclass : public Errata::Sink {
      decltype(seen) &f;
      explicit Subclass(decltype(seen) &f) : f(f) {}
      void operator()(Errata const &e) const override { f(2, e); }
    };
    Errata::register_sink([=](Errata const &e) { seen(0, e); });
    Errata::SinkHandler const handler{[=](Errata const &e) { seen(1, e); }};
    Errata::register_sink(handler);
    static auto keep = seen;
    Errata::register_sink(Errata::Sink::Handle(new Subclass(keep)));
    Errata::SinkHandler last{[=](Errata const &e) { seen(3, e); }};
    Errata::register_sink(std::move(last));
    return true;
  }();
  SINKING = true;
  for (auto &s : SUNK)
    s.clear();
  if (g.chance(8)) { // as documented: three levels with names, "Error" is the default and nothing is filtered.
    NAMES                    = {"Info", "Warning", "Error"};
    Errata::SEVERITY_NAMES   = initial.names;
    Errata::DEFAULT_SEVERITY = initial.dflt;
    Errata::FAILURE_SEVERITY = initial.failure;
    Errata::FILTER_SEVERITY  = initial.filter;
    DEFAULT_S                = 2;
    FAILURE_S                = initial.failure; // 1 in the manual, 2 in the code.
    FILTER_S                 = 0;
    REQ(FAILURE_S == 1 || FAILURE_S == 2, "threshold for failure");
    return;
  }
  unsigned n = g.pick({3u, 5u, 1u, 0u, 8u});
  NAMES.clear();
  NAME_VIEWS.clear();
  for (unsigned i = 0; i < n; ++i)
    NAMES.push_back(std::string("Sev") + char('A' + i));
  for (auto const &s : NAMES)
    NAME_VIEWS.push_back(s);
  Errata::SEVERITY_NAMES   = swoc::MemSpan<TextView const>(NAME_VIEWS.data(), NAME_VIEWS.size());
  DEFAULT_S                = unsigned(g.pick({2, 4, 0, 1, 255}));
  FAILURE_S                = unsigned(g.pick({2, 3, 0, 1, 200, 255}));
  FILTER_S                 = unsigned(g.pick({0, 1, 2, 4, 255}));
  Errata::DEFAULT_SEVERITY = Severity(DEFAULT_S);
  Errata::FAILURE_SEVERITY = Severity(FAILURE_S);
  Errata::FILTER_SEVERITY  = Severity(FILTER_S);
}

inline std::string
sev_text(unsigned n)
{
  return n < NAMES.size() ? NAMES[n] : std::to_string(n);
}
inline std::string
code_short(std::error_code const &ec)
{
  static std::pair<int, char const *> const T[] = {{0, "SUCCESS"}, {1, "EPERM"}, {2, "ENOENT"}, {13, "EACCES"}, {22, "EINVAL"}};
  if (&ec.category() == &std::generic_category() || &ec.category() == &std::system_category())
    for (auto [n, s] : T)
      if (n == ec.value())
        return s;
  return ec.message();
}
inline std::string
code_text(std::error_code const &ec)
{
  return code_short(ec) + " [" + std::to_string(ec.value()) + "]";
}
inline std::error_code
gen_code(pbt::Src &g)
{
  if (g.chance(20))
    return std::error_code(g.pick({7, 1, -3, 1000}), CATEGORY);
  if (g.chance(15))
    return {};
  return std::error_code(g.pick({2, 1, 13, 22}), g.flip() ? std::system_category() : static_cast<std::error_category const &>(std::generic_category()));
}
inline unsigned
gen_sev(pbt::Src &g)
{
  return g.chance(80) ? unsigned(g.draw(5)) : unsigned(g.draw(255));
}
inline std::string
gen_text(pbt::Src &g)
{
  switch (g.weighted({60, 10, 20, 10})) {
  case 0:
    return g.str("abcXYZ {}%:\n0189", 40, 8);
  case 1:
    return "";
  case 2:
    return std::string(g.draw(700), char('a' + g.draw(25))) + g.str("0123", 9, 3);
  default:
    return g.bytes(30, 8);
  }
}
/// Text as it would be rendered.
inline std::string
render(Model const &m)
{
  std::string r;
  if (m.sev)
    r += sev_text(*m.sev) + m.s_glue;
  if (m.code) {
    std::string s = code_short(m.code);
    // A known short name is forced to lower case in this position.
    if ((&m.code.category() == &std::generic_category() || &m.code.category() == &std::system_category()))
      for (char &c : s)
        c = char(tolower(c));
    r += "[" + s + " " + std::to_string(m.code.value()) + "] ";
  }
  bool any = false;
  for (auto const &n : m.notes) {
    if (n.text.empty())
      continue;
    if (any)
      r += m.glue;
    for (unsigned i = 0; i < n.level; ++i)
      r += m.indent;
    if (n.sev)
      r += sev_text(*n.sev) + m.a_s_glue;
    r += n.text;
    any = true;
  }
  if (any && m.final_p)
    r += m.glue;
  return r;
}

/// Check that @a e is the content of @a m.
template <typename... A>
void
check_state(Errata &e, Model const &m, A const &...why)
{
  Errata const &c = e;
  REQ_EQ(c.length(), m.notes.size(), "length after ", why...);
  REQ_EQ(c.empty(), m.notes.empty(), "empty after ", why...);
  REQ(c.code() == m.code, "code is ", c.code().value(), " not ", m.code.value(), " after ", why...);
  REQ_EQ(c.has_severity(), m.sev.has_value(), "has severity after ", why...);
  REQ_EQ(unsigned(c.severity()), m.sev.value_or(DEFAULT_S), "severity after ", why...);
  if (!m.touched)
    REQ(c.is_ok(), "untouched errata is a success after ", why...);
  if (m.content()) // an errata with only layout is not specified.
    REQ_EQ(c.is_ok(), m.sev.value_or(DEFAULT_S) < FAILURE_S, "is_ok after ", why...);
  REQ_EQ(bool(c), c.is_ok(), "bool after ", why...);
  REQ_EQ(!c, !c.is_ok(), "not after ", why...);
  size_t i = 0;
  for (auto const &a : c) {
    REQ(i < m.notes.size(), "too many annotations after ", why...);
    auto const &n = m.notes[i++];
    REQ_EQ(std::string(a.text()), n.text, "annotation ", i, " after ", why...);
    REQ_EQ(unsigned(a.level()), n.level, "level of annotation ", i, " after ", why...);
    REQ_EQ(a.has_severity(), n.sev.has_value(), "annotation ", i, " has severity after ", why...);
    REQ_EQ(unsigned(a.severity(Severity(77))), n.sev.value_or(77), "severity of annotation ", i, " after ", why...);
    if (n.sev)
      REQ_EQ(unsigned(a.severity()), *n.sev, "severity of annotation ", i, " after ", why...);
  }
  REQ_EQ(i, m.notes.size(), "annotations after ", why...);
  i = 0;
  for (auto &a : e)
    REQ_EQ(std::string(a.text()), m.notes[i++].text, "annotation (mutable) after ", why...);
  if (!m.notes.empty()) {
    REQ_EQ(std::string(c.front().text()), m.notes.front().text, "front after ", why...);
    REQ_EQ(std::string(c.back().text()), m.notes.back().text, "back after ", why...);
  }
}

/// Merge @a s to @a d, as is done for @c Errata::note(Errata).
inline void
merge(Model &d, Model const &s)
{
  if (!s.touched)
    return;
  auto notes = s.notes;
  auto sev   = s.sev;
  d.touched  = true;
  if (sev)
    d.update(*sev);
  for (auto &n : notes) {
    ++n.level;
    d.notes.push_back(n);
  }
}

/// Make one, by any constructor.
inline std::unique_ptr<Errata>
make(pbt::Src &g, Model &m)
{
  auto ec       = gen_code(g);
  unsigned s    = gen_sev(g);
  Severity sev  = Severity(s);
  std::string t = gen_text(g);
  m             = Model{};
  m.touched     = true;
  int n         = int(g.draw(1000));
  auto note     = [&](std::string const &x) { m.notes.push_back({x, 0, {}}); };
  switch (g.draw(14)) {
  case 0:
    m.touched = false;
    return std::make_unique<Errata>();
  case 1:
    m.code = ec;
    return std::make_unique<Errata>(ec);
  case 2:
    m.code = ec;
    note(code_text(ec));
    return std::make_unique<Errata>(ec, Errata::AUTO);
  case 3:
    m.sev = s;
    return std::make_unique<Errata>(sev);
  case 4:
    m.sev = s;
    note(sev_text(s));
    return std::make_unique<Errata>(sev, Errata::AUTO);
  case 5:
    m.sev  = s;
    m.code = ec;
    return std::make_unique<Errata>(ec, sev);
  case 6:
    m.sev  = s;
    m.code = ec;
    note(sev_text(s) + ": " + code_text(ec));
    return std::make_unique<Errata>(ec, sev, Errata::AUTO);
  case 7:
    m.sev  = s;
    m.code = ec;
    note(t);
    return std::make_unique<Errata>(ec, sev, std::string_view(Exact(t).view()));
  case 8:
    m.sev = s;
    note(t);
    return std::make_unique<Errata>(sev, std::string_view(t));
  case 9:
    m.sev  = DEFAULT_S;
    m.code = ec;
    note(t);
    return std::make_unique<Errata>(ec, std::string_view(t));
  case 10:
    m.sev = DEFAULT_S;
    note(t);
    return std::make_unique<Errata>(std::string_view(t));
  case 11:
    m.sev  = s;
    m.code = ec;
    note("<" + t + "> " + std::to_string(n));
    return std::make_unique<Errata>(ec, sev, "<{}> {}", t, n);
  case 12:
    m.sev  = DEFAULT_S;
    m.code = ec;
    note(std::to_string(n) + t);
    return std::make_unique<Errata>(ec, "{1}{0}", t, n);
  case 13:
    m.sev = s;
    note(t + t + "{}");
    return std::make_unique<Errata>(sev, "{0}{0}{{}}", t);
  default:
    m.sev = DEFAULT_S;
    note("x" + t);
    return std::make_unique<Errata>("x{}", t);
  }
}
/// Add an annotation, by any means
inline void
add_note(pbt::Src &g, Errata &e, Model &m)
{
  std::string t = gen_text(g);
  unsigned s    = gen_sev(g);
  Severity sev  = Severity(s);
  auto ec       = gen_code(g);
  int n         = int(g.draw(100000));
  auto plain    = [&](std::string const &x) {
    m.touched = true;
    m.notes.push_back({x, 0, {}});
  };
  auto local = [&](std::string const &x) {
    m.update(s);
    if (s >= FILTER_S)
      m.notes.push_back({x, 0, s});
    g.label("filtered", s < FILTER_S);
  };
  // Text that is already in the errata.
  std::string_view src = t;
  if (!m.notes.empty() && g.chance(10)) {
    t   = m.notes.back().text;
    src = e.back().text();
  }
  Errata *r = &e;
  switch (g.draw(11)) {
  case 0:
    plain(t);
    r = &e.note(src);
    break;
  case 1:
    local(t);
    r = &e.note(sev, src);
    break;
  case 2:
    local(sev_text(s));
    r = &e.note(sev);
    break;
  case 3:
    plain(code_text(ec));
    r = &e.note(ec);
    break;
  case 4:
    local(sev_text(s) + ": " + code_text(ec));
    r = &e.note(ec, sev);
    break;
  case 5:
    if (g.flip()) {
      plain(t);
      r = &e.note_s(std::nullopt, src);
    } else {
      local(t);
      r = &e.note_s(sev, src);
    }
    break;
  case 6:
    plain(t + " is " + std::to_string(n));
    r = &e.note("{} is {}", src, n);
    break;
  case 7:
    local("[" + t + "]" + std::to_string(n) + t);
    r = &e.note(sev, "[{0}]{1}{0}", src, n);
    break;
  case 8:
    plain(t);
    r = &e.note_v("{}", std::forward_as_tuple(src));
    break;
  case 9:
    local(t + "!");
    r = &e.note_v(sev, "{}!", std::forward_as_tuple(src));
    break;
  case 10:
    if (g.flip()) {
      plain(t);
      r = &e.note_sv(std::nullopt, "{}", std::forward_as_tuple(src));
    } else {
      local(t);
      r = &e.note_sv(sev, "{}", std::forward_as_tuple(src));
    }
    break;
  default: // Nothing at all
    plain("");
    r = &e.note("{}", swoc::bwf::If(false, "x"));
    break;
  }
  REQ(r == &e, "note returns the errata");
}
/// Errata nested deeply: each is merged to another.
inline std::unique_ptr<Errata>
make_deep(pbt::Src &g, Model &m)
{
  unsigned depth = g.flip() ? unsigned(g.draw(40)) : 240 + unsigned(g.draw(g.chance(20) ? 500 : 30));
  auto e         = make(g, m);
  for (unsigned i = 0; i < depth; ++i) {
    Model om;
    om.touched = true;
    auto outer = std::make_unique<Errata>();
    bool first = i == 0 || g.chance(5);
    if (first || i + 2 > depth) {
      outer->note("at {}", i);
      om.notes.push_back({"at " + std::to_string(i), 0, {}});
    }
    merge(om, m);
    if (i % 2)
      outer->note(std::move(*e));
    else
      outer->note(static_cast<Errata const &>(*e));
    if (first) {
      outer->note("after {}", i);
      om.notes.push_back({"after " + std::to_string(i), 0, {}});
    }
    e = std::move(outer);
    m = om;
  }
  g.nontrivial(depth > 255);
  g.label("deep", depth > 255);
  return e;
}
