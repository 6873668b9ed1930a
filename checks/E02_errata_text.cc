// E02: Errata text, sinks and result wrappers carry everything through.
#include "errata_util.h"
#include <sstream>
using swoc::Rv;
using swoc::MakeRv;

static void
layout(pbt::Src &g, Errata &e, Model &m)
{
  std::string t = g.chance(15) ? std::string() : g.str("-> \n\t:,|{}", 6, 3);
  Exact x(t); // must be copied
  m.touched = true;
  switch (g.draw(4)) {
  case 0:
    e.assign_annotation_glue_text(TextView(x.view()));
    m.glue    = t;
    m.final_p = false;
    break;
  case 1: {
    bool f = g.flip();
    e.assign_annotation_glue_text(TextView(x.view()), f);
    m.glue    = t;
    m.final_p = f;
    break;
  }
  case 2:
    e.assign_annotation_severity_glue_text(TextView(x.view()));
    m.a_s_glue = t;
    break;
  case 3:
    e.assign_severity_glue_text(TextView(x.view()));
    m.s_glue = t;
    break;
  default:
    e.assign_indent_text(TextView(x.view()));
    m.indent = t;
    break;
  }
}

static void
check_layout(Errata const &e, Model const &m)
{
  REQ_EQ(std::string(e.annotation_glue_text()), m.glue, "annotation glue");
  REQ_EQ(std::string(e.annotation_severity_glue_text()), m.a_s_glue, "annotation severity glue");
  REQ_EQ(std::string(e.severity_glue_text()), m.s_glue, "severity glue");
  REQ_EQ(std::string(e.indent_text()), m.indent, "indent");
}

static void
check_text(pbt::Src &g, Errata const &e, Model const &m)
{
  std::string want = render(m), got;
  swoc::bwprint(got, "{}", e);
  REQ_EQ(got, want, "text");
  std::ostringstream os;
  os << e;
  REQ_EQ(os.str(), want, "stream");
  std::ostringstream os2;
  e.write(os2);
  REQ_EQ(os2.str(), want, "write");
  size_t cap = g.draw(want.size() + 3);
  Exact buff(std::string(cap, '#'));
  swoc::FixedBufferWriter w{buff.p, buff.n};
  w.print("{}", e);
  REQ_EQ(w.extent(), want.size(), "extent");
  REQ_EQ(std::string(w.view()), want.substr(0, cap), "clipped to ", cap);
  unsigned width = unsigned(g.draw(want.size() + 20));
  if (!want.empty()) {
    swoc::bwprint(got, swoc::TextView("a{:*>" + std::to_string(width) + "}b"), e);
    REQ_EQ(got, "a" + std::string(width > want.size() ? width - want.size() : 0, '*') + want + "b", "aligned");
  }
}

PROPERTY(text, 3, "annotations at several levels, with and without text, and a changed layout")
{
  g.scaled();
  g.huge();
  configure(g);
  SINKING = false;
  Model m;
  auto e      = make(g, m);
  bool changed = false, nested = false;
  for (unsigned n = 0; g.more(8, n, 40); ++n) {
    switch (g.weighted({50, 15, 20, 8, 5})) {
    case 0:
      add_note(g, *e, m);
      break;
    case 1:
      layout(g, *e, m);
      changed = true;
      break;
    case 2: { // nest
      Model im;
      auto inner = make(g, im);
      for (unsigned k = 0; g.more(2, k, 6); ++k)
        add_note(g, *inner, im);
      if (g.chance(20))
        layout(g, *inner, im);
      merge(im, m); // one more level of what is already there.
      if (im.notes.size() > 60)
        break;
      inner->note(std::move(*e));
      e      = std::move(inner);
      m      = im;
      nested = true;
      break;
    }
    case 3: { // merge
      Model im;
      auto inner = make(g, im);
      add_note(g, *inner, im);
      merge(m, im);
      e->note(*inner);
      nested = true;
      break;
    }
    default: { // moves carry the layout
      auto p = std::make_unique<Errata>(std::move(*e));
      check_layout(*e, Model{});
      e = std::move(p);
      break;
    }
    }
    check_layout(*e, m);
  }
  unsigned empty = 0;
  for (auto const &n : m.notes)
    empty += n.text.empty();
  g.label("empty annotation", empty);
  g.nontrivial(changed && nested && m.notes.size() > 2);
  check_text(g, *e, m);
  check_state(*e, m, "text");
}

// Expected reports are compared and removed.
static void
reported(char const *what, std::vector<std::string> want, bool optional = false)
{
  for (auto &s : SUNK) {
    if (optional && s.empty()) {
      continue;
    }
    REQ_EQ(s.size(), want.size(), "number of reports for ", what);
    for (size_t i = 0; i < want.size(); ++i)
      REQ_EQ(s[i], want[i], "report for ", what);
    s.clear();
  }
}
static void
abandoned(char const *what, Model const &m)
{
  if (m.content())
    reported(what, {render(m)});
  else if (m.touched)
    reported(what, {render(m)}, true);
  else
    reported(what, {});
}

PROPERTY(sinks, 2, "an errata with content was abandoned after a move")
{
  g.scaled();
  g.huge();
  configure(g);
  struct Slot {
    std::unique_ptr<Errata> e;
    Model m;
  };
  std::vector<Slot> slots(3);
  for (auto &s : slots)
    s.e = make(g, s.m);
  reported("construct", {});
  bool moved = false, gone = false;
  for (unsigned n = 0; g.more(12, n, 60); ++n) {
    auto &s = slots[g.draw(slots.size() - 1)];
    auto &t = slots[g.draw(slots.size() - 1)];
    switch (g.weighted({25, 10, 10, 10, 10, 15, 10, 5})) {
    case 0:
      add_note(g, *s.e, s.m);
      reported("note", {});
      break;
    case 1:
      s.e->sink();
      abandoned("sink", s.m);
      s.m = Model{};
      check_state(*s.e, s.m, "sink");
      break;
    case 2:
      s.e->clear();
      reported("clear", {});
      s.m = Model{};
      break;
    case 3: // destroy
      s.e.reset();
      abandoned("destruct", s.m);
      gone |= moved && s.m.content();
      s.e   = make(g, s.m);
      reported("construct", {});
      break;
    case 4: { // move construct
      Errata *p = new Errata(std::move(*s.e));
      reported("move construct", {});
      s.e.reset(); // the husk
      reported("destruct moved from", {});
      s.e.reset(p);
      moved = true;
      break;
    }
    case 5: { // move assign.
      if (&s == &t)
        break;
      std::string text = render(s.m);
      *s.e             = std::move(*t.e);
      // Whether replacement is abandonment isn't specified.
      for (auto &x : SUNK)
        if (x.size() == 1 && x[0] == text)
          x.clear();
      reported("move assign", {});
      s.m   = t.m;
      t.m   = Model{};
      moved = true;
      break;
    }
    case 6: // merge and clear
      if (&s == &t || s.m.notes.size() + t.m.notes.size() > 200)
        break;
      merge(s.m, t.m);
      t.m = Model{};
      s.e->note(std::move(*t.e));
      reported("merge", {});
      break;
    default: { // by way of a result
      int how = int(g.draw(2));
      {
        Rv<int> r(7, std::move(*s.e));
        reported("result", {});
        if (how == 0) {
          Rv<int> r2{std::move(r)};
          *s.e = std::move(r2.errata());
        } else if (how == 1) {
          r.clear();
          s.m = Model{};
          reported("clear", {});
        }
      }
      if (how == 2) { // lost with the result.
        abandoned("result", s.m);
        s.m = Model{};
      } else {
        reported("result", {});
      }
      break;
    }
    }
    check_state(*s.e, s.m, "step ", n);
  }
  for (auto &s : slots) {
    s.e.reset();
    abandoned("destruct", s.m);
  }
  g.nontrivial(gone);
}

template <typename T> T value(int n);
template <>
int
value<int>(int n)
{
  return n;
}
template <>
std::string
value<std::string>(int n)
{
  return "a string that is not in place " + std::to_string(n);
}
template <>
pbt::Tracked
value<pbt::Tracked>(int n)
{
  return pbt::Tracked(n);
}

template <typename T>
static void
rv_history(pbt::Src &g)
{
  int v = int(g.draw(1000));
  Model m;
  auto e = make(g, m);
  T t    = value<T>(v);
  std::unique_ptr<Rv<T>> rv;
  switch (g.draw(6)) {
  case 0:
    rv.reset(new Rv<T>);
    *rv = T(t);
    m   = Model{};
    break;
  case 1:
    rv.reset(new Rv<T>(t));
    m = Model{};
    REQ(t == value<T>(v), "source is not changed");
    break;
  case 2:
    rv.reset(new Rv<T>(t, std::move(*e)));
    REQ(t == value<T>(v), "source is not changed");
    break;
  case 3:
    rv.reset(new Rv<T>(value<T>(v)));
    m = Model{};
    break;
  case 4:
    rv.reset(new Rv<T>(value<T>(v), std::move(*e)));
    break;
  case 5:
    rv.reset(new Rv<T>(std::move(*e)));
    rv->assign(t);
    break;
  default:
    rv.reset(new Rv<T>(MakeRv(T(t), std::move(*e))));
    break;
  }
  auto check = [&](char const *why) {
    Rv<T> const &c = *rv;
    REQ(c.result() == value<T>(v), "result after ", why);
    REQ(rv->result() == value<T>(v), "result after ", why);
    T const &k = c;
    REQ(k == value<T>(v), "conversion to result after ", why);
    REQ_EQ(c.is_ok(), c.errata().is_ok(), "status after ", why);
    if (m.content())
      REQ_EQ(c.is_ok(), m.sev.value_or(DEFAULT_S) < FAILURE_S, "status after ", why);
    else if (!m.touched)
      REQ(c.is_ok(), "status after ", why);
    REQ(&c.errata() == &rv->errata(), "errata after ", why);
    Errata &r = *rv;
    REQ(&r == &rv->errata(), "conversion to errata after ", why);
    check_state(rv->errata(), m, why);
    auto &[x, y] = *rv;
    REQ(&x == &rv->result() && &y == &rv->errata(), "binding after ", why);
    auto const &[cx, cy] = c;
    REQ(&cx == &c.result() && &cy == &c.errata(), "constant binding after ", why);
    std::string text;
    swoc::bwprint(text, "{}", rv->errata());
    REQ_EQ(text, render(m), "text after ", why);
  };
  check("construct");
  bool noted = false, replaced = false;
  for (unsigned n = 0; g.more(8, n, 40); ++n) {
    std::string s = gen_text(g);
    unsigned sev  = gen_sev(g);
    auto local    = [&](std::string const &x) {
      m.update(sev);
      if (sev >= FILTER_S)
        m.notes.push_back({x, 0, sev});
    };
    auto plain = [&](std::string const &x) {
      m.touched = true;
      m.notes.push_back({x, 0, {}});
    };
    auto ec   = gen_code(g);
    Rv<T> *r = rv.get();
    noted    = true;
    switch (g.draw(15)) {
    case 0:
      plain(s);
      r = &rv->note(std::string_view(s));
      break;
    case 1:
      local(s);
      r = &rv->note(Severity(sev), std::string_view(s));
      break;
    case 2:
      plain(code_text(ec));
      r = &rv->note(ec);
      break;
    case 3:
      local(sev_text(sev) + ": " + code_text(ec));
      r = &rv->note(ec, Severity(sev));
      break;
    case 4:
      plain(s + std::to_string(n));
      r = &rv->note("{}{}", s, n);
      break;
    case 5:
      local(s + std::to_string(n));
      r = &rv->note(Severity(sev), "{}{}", s, n);
      break;
    case 6:
    case 7: {
      Model im;
      auto i = make(g, im);
      if (m.notes.size() > 40)
        break;
      merge(m, im);
      if (g.flip()) {
        r = &rv->note(*i);
        check_state(*i, im, "merged");
      } else {
        r = &rv->note(std::move(*i));
        check_state(*i, Model{}, "merged and cleared");
      }
      break;
    }
    case 8: { // replace value
      v     = int(g.draw(1000));
      T x   = value<T>(v);
      T &k  = (*rv = x);
      REQ(&k == &rv->result() && x == value<T>(v), "assigned");
      replaced = true;
      break;
    }
    case 9: {
      v    = int(g.draw(1000));
      T &k = (*rv = value<T>(v));
      REQ(&k == &rv->result(), "assigned");
      replaced = true;
      break;
    }
    case 10: {
      v   = int(g.draw(1000));
      T x = value<T>(v);
      r   = &rv->assign(x);
      REQ(x == value<T>(v), "assigned");
      break;
    }
    case 11:
      v = int(g.draw(1000));
      r = &rv->assign(value<T>(v));
      break;
    case 12: {
      auto i = make(g, m);
      r      = &(*rv = std::move(*i));
      check_state(*i, Model{}, "moved to result");
      replaced = true;
      break;
    }
    case 13:
      r = &rv->clear();
      m = Model{};
      break;
    case 14: // move
      rv.reset(new Rv<T>(std::move(*rv)));
      r = rv.get();
      break;
    default: {
      Rv<T> x;
      x  = std::move(*rv);
      rv.reset(new Rv<T>(std::move(x)));
      r = rv.get();
      break;
    }
    }
    REQ(r == rv.get(), "returns itself");
    check("step");
  }
  g.nontrivial(noted && replaced);
}

PROPERTY(result, 3, "annotated and replaced")
{
  g.scaled();
  g.huge();
  configure(g);
  SINKING = false;
  switch (g.draw(2)) {
  case 0:
    return rv_history<int>(g);
  case 1:
    return rv_history<std::string>(g);
  default: {
    long live = pbt::Tracked::live;
    rv_history<pbt::Tracked>(g);
    REQ_EQ(pbt::Tracked::live, live, "no leaked results");
    // Move only result.
    Rv<std::unique_ptr<int>> p{std::make_unique<int>(int(live))};
    Rv<std::unique_ptr<int>> q{std::move(p)};
    REQ(*q.result() == int(live) && !p.result(), "moved");
    p = std::move(q.result());
    REQ(*p.result() == int(live), "moved");
    break;
  }
  }
}

PROPERTY(deep, 1, "more than 255 levels")
{
  configure(g);
  SINKING = false;
  Model m;
  auto e = make_deep(g, m);
  if (g.flip())
    layout(g, *e, m);
  check_text(g, *e, m);
}
