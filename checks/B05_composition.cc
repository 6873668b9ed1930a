// B05 - a format is its literals, and the renderings of each thing it refers to.
#include "bwf_util.h"
#include <any>
#include <variant>
#include <map>
using swoc::BufferWriter;
using swoc::TextView;
using swoc::bwf::ExternalNames;
using swoc::bwf::ContextNames;
using BSpec = swoc::bwf::Spec;
using pbt::Src;

namespace
{
using Value = std::variant<int, uint64_t, bool, char, std::string>;

std::string
expect(ref::Spec const &s, Value const &v)
{
  switch (v.index()) {
  case 0:
    return ref::integer(s, std::get<0>(v));
  case 1:
    return ref::integer(s, std::get<1>(v));
  case 2:
    return ref::boolean(s, std::get<2>(v));
  case 3:
    return ref::plain(s, std::string(1, std::get<3>(v)));
  default:
    return ref::string(s, std::get<4>(v));
  }
}

Value
gen_value(Src &g, unsigned kind)
{
  switch (kind) {
  case 0:
    return int(g.edgy());
  case 1:
    return uint64_t(g.edgy());
  case 2:
    return g.flip();
  case 3:
    return char(' ' + g.draw(94));
  default:
    return g.str("abcXYZ{}:%0-9 ", 12, 5);
  }
}

/// Arguments in a container.
struct VectorPack : public swoc::bwf::ArgPack {
  std::vector<Value> const &_v;
  explicit VectorPack(std::vector<Value> const &v) : _v(v) {}
  std::any
  capture(unsigned idx) const override
  {
    return std::any(&_v[idx]);
  }
  BufferWriter &
  print(BufferWriter &w, BSpec const &spec, unsigned idx) const override
  {
    return std::visit([&](auto const &x) -> BufferWriter & { return bwformat(w, spec, x); }, _v[idx]);
  }
  unsigned
  count() const override
  {
    return _v.size();
  }
};

struct Piece {
  enum Kind { LITERAL, IMPLICIT, INDEX, NAME } kind = LITERAL;
  std::string text; // literal text or name.
  unsigned idx = 0;
  ref::Spec spec;
};

/// Context for context names.
struct Ctx {
  std::string tag;
  int n = 0;
};

/// What the names are bound to.
enum class Bound { NUMBER, TEXT, EXT, CTX_N, CTX_TAG };
constexpr int NUMBER = -1776;

std::string
expect(ref::Spec const &s, Bound b, std::string const &name, Ctx const &ctx)
{
  switch (b) {
  case Bound::NUMBER:
    return ref::integer(s, NUMBER);
  case Bound::TEXT: // not aligned by the generator
    return ref::plain(s, "<" + name + ">");
  case Bound::EXT:
    return ref::plain(s, s.ext.empty() ? "none" : s.ext);
  case Bound::CTX_N:
    return ref::integer(s, ctx.n);
  case Bound::CTX_TAG:
    return ref::string(s, ctx.tag);
  }
  return {};
}

ExternalNames::Generator
external(Bound b)
{
  switch (b) {
  case Bound::NUMBER:
    return [](BufferWriter &w, BSpec const &spec) -> BufferWriter & { return bwformat(w, spec, NUMBER); };
  case Bound::TEXT:
    return [](BufferWriter &w, BSpec const &spec) -> BufferWriter & { return w.print("<{}>", spec._name); };
  default:
    return [](BufferWriter &w, BSpec const &spec) -> BufferWriter & {
      return w.write(spec._ext.empty() ? std::string_view("none") : spec._ext);
    };
  }
}

using Names = std::map<std::string, Bound>;
// names usable in formats, not all of which are bound. None is a number.
std::vector<std::string> const NAMES = {"a", "ab", "alpha", "B", "x-y", "1a", "n.n", "-1", "long name with spaces", "q"};
std::vector<std::string> const GLOBALS = {"ga", "gb", "global", "0x1", "a", "alpha"};

std::vector<Piece>
gen_pieces(Src &g, std::vector<std::string> const &names, bool args_p = true)
{
  std::vector<Piece> v;
  unsigned n = 0;
  while (g.more(6, n, 16)) {
    ++n;
    Piece p;
    if (args_p)
      p.kind = Piece::Kind(g.weighted({3, 4, 4, 2}));
    else
      p.kind = g.flip() ? Piece::LITERAL : Piece::NAME;
    if (p.kind == Piece::LITERAL) {
      p.text = g.str("abc {}{}:%\x80 1", 12, 4);
      if (p.text.empty())
        p.text = "-";
    } else {
      p.spec = ref::gen_spec(g);
      // Numeric alignment of what isn't numeric isn't documented.
      if (p.spec.alignment() == '=')
        p.spec.align = '>';
      if (p.kind == Piece::INDEX)
        p.idx = g.chance(5) ? unsigned(g.draw(0x7FFFFFFF)) : unsigned(g.draw(6));
      else if (p.kind == Piece::NAME)
        p.text = g.pick(names);
    }
    v.push_back(p);
  }
  return v;
}

std::string
format_text(Src &g, std::vector<Piece> const &v)
{
  std::string fmt;
  for (auto const &p : v) {
    switch (p.kind) {
    case Piece::LITERAL:
      for (char c : p.text) {
        if (c == '{' || c == '}')
          fmt += c;
        fmt += c;
      }
      break;
    case Piece::IMPLICIT:
      fmt += "{" + ref::text(g, p.spec) + "}";
      break;
    case Piece::INDEX:
      fmt += "{" + std::string(g.chance(10) ? g.draw(3) : 0, '0') + std::to_string(p.idx) + ref::text(g, p.spec) + "}";
      break;
    case Piece::NAME:
      fmt += "{" + p.text + ref::text(g, p.spec) + "}";
      break;
    }
  }
  return fmt;
}

std::string
expect(std::vector<Piece> const &v, std::vector<Value> const &args, Names const &names, Ctx const &ctx)
{
  std::string z;
  unsigned next = 0;
  for (auto const &p : v) {
    switch (p.kind) {
    case Piece::LITERAL:
      z += p.text;
      break;
    case Piece::IMPLICIT:
    case Piece::INDEX: {
      unsigned idx = p.kind == Piece::IMPLICIT ? next++ : p.idx;
      if (idx < args.size())
        z += expect(p.spec, args[idx]);
      else
        z += ref::plain(p.spec, "{BAD_ARG_INDEX:" + std::to_string(idx) + " of " + std::to_string(args.size()) + "}");
    } break;
    case Piece::NAME:
      if (auto spot = names.find(p.text); spot != names.end())
        z += expect(p.spec, spot->second, p.text, ctx);
      else
        z += ref::plain(p.spec, "{~" + p.text + "~}");
      break;
    }
  }
  return z;
}

void
stats(Src &g, std::vector<Piece> const &v, size_t nargs)
{
  unsigned specs = 0, lits = 0;
  bool name = false, bad = false, mixed_i = false, mixed_x = false;
  unsigned next = 0;
  for (auto const &p : v) {
    (p.kind == Piece::LITERAL ? lits : specs)++;
    name    |= p.kind == Piece::NAME;
    mixed_i |= p.kind == Piece::IMPLICIT;
    mixed_x |= p.kind == Piece::INDEX;
    bad     |= (p.kind == Piece::IMPLICIT && next++ >= nargs) || (p.kind == Piece::INDEX && p.idx >= nargs);
  }
  g.label("names", name);
  g.label("index out of range", bad);
  g.label("explicit and implicit", mixed_i && mixed_x);
  g.nontrivial(specs > 1);
}

/// Global names are that, so it must be known what has been done with them.
Names &
global_names()
{
  static Names n;
  return n;
}

void
reset_globals(Src &g)
{
  // Names can't be removed, so the initial state for a case is all of them bound the same way.
  auto &n = global_names();
  for (auto const &name : GLOBALS)
    if (name != "ga") { // never bound
      auto b = Bound::NUMBER;
      if (auto spot = n.find(name); spot == n.end() || spot->second != b) {
        swoc::bwf::Global_Names.assign(name, external(b));
        n[name] = b;
      }
    }
  if (g.chance(30)) {
    auto const &name = GLOBALS[1 + g.draw(GLOBALS.size() - 2)];
    auto b           = Bound(g.draw(2));
    std::string local{name}; // must be copied
    swoc::bwf::Global_Names.assign(local, external(b));
    local.assign(local.size(), '!');
    n[name] = b;
  }
  for (auto const &name : GLOBALS)
    REQ_EQ(swoc::bwf::Global_Names.contains(name), n.count(name) > 0, name);
  REQ(!swoc::bwf::Global_Names.contains("no such name"));
}

template <typename T> struct Fmt {
  Exact e;
  explicit Fmt(T const &s) : e(s) {}
  TextView
  text() const
  {
    return e.view();
  }
};
} // namespace

// Arguments in a tuple.
PROPERTY(args, 6, "more than one specifier")
{
  g.scaled();
  g.huge();
  reset_globals(g);
  auto names = GLOBALS;
  auto v     = gen_pieces(g, names);
  auto fmt   = format_text(g, v);
  Exact e{fmt};
  TextView tv{e.view()};
  std::vector<Value> args;
  unsigned shape = g.draw(5);
  auto add       = [&](unsigned kind) -> Value const & {
    args.push_back(gen_value(g, kind));
    return args.back();
  };
  args.reserve(10);
  switch (shape) {
  case 0:
    break;
  case 1:
    add(0);
    break;
  case 2:
    add(4), add(0);
    break;
  case 3:
    add(0), add(4), add(2), add(3), add(1);
    break;
  case 4:
    add(4), add(4), add(1);
    break;
  case 5:
    add(3), add(0), add(1), add(0), add(4), add(2), add(0);
    break;
  }
  auto want = expect(v, args, global_names(), Ctx{});
  g.note("format ", pbt::esc(fmt), " args ", args.size(), " expect ", pbt::esc(want));
  swoc::bwf::Format compiled{tv};
  bool literal_p = true;
  for (auto const &p : v)
    literal_p &= p.kind == Piece::LITERAL;
  REQ_EQ(compiled.is_literal(), literal_p);
  auto all = [&](auto const &...a) {
    std::string got;
    switch (g.draw(3)) {
    case 0:
      got = print_all(g, [&](BufferWriter &w) { w.print(tv, a...); });
      break;
    case 1:
      got = print_all(g, [&](BufferWriter &w) { w.print(compiled, a...); });
      break;
    case 2:
      got = print_all(g, [&](BufferWriter &w) { w.print_v(tv, std::forward_as_tuple(a...)); });
      break;
    default:
      got = print_all(g, [&](BufferWriter &w) { w.print_v(compiled, std::make_tuple(a...)); });
      break;
    }
    REQ_EQ(got, want, "format ", pbt::esc(fmt));
  };
  auto I = [&](unsigned k) { return std::get<0>(args[k]); };
  auto U = [&](unsigned k) { return std::get<1>(args[k]); };
  auto B = [&](unsigned k) { return std::get<2>(args[k]); };
  auto C = [&](unsigned k) { return std::get<3>(args[k]); };
  auto S = [&](unsigned k) { return std::get<4>(args[k]); };
  switch (shape) {
  case 0:
    all();
    break;
  case 1:
    all(I(0));
    break;
  case 2:
    all(S(0), I(1));
    break;
  case 3:
    all(I(0), S(1), B(2), C(3), U(4));
    break;
  case 4:
    all(S(0), S(1), U(2));
    break;
  case 5:
    all(C(0), I(1), U(2), I(3), S(4), B(5), I(6));
    break;
  }
  stats(g, v, args.size());
}

// Arguments in a container, names with and without context.
PROPERTY(names, 6, "more than one specifier")
{
  g.scaled();
  g.huge();
  std::vector<Value> args;
  unsigned k = 0;
  bool args_p = g.chance(70);
  while (args_p && g.more(3, k, 8)) {
    ++k;
    args.push_back(gen_value(g, g.draw(4)));
  }
  auto v   = gen_pieces(g, NAMES, args_p);
  auto fmt = format_text(g, v);
  Exact e{fmt};
  TextView tv{e.view()};
  swoc::bwf::Format compiled{tv};
  Names bound;
  Ctx ctx{g.str("abc{}", 6), int(g.edgy())};
  std::string got;
  auto gen_name = [&] { return g.pick(NAMES); };
  VectorPack pack{args};
  auto render = [&](auto const &binding) {
    if (args.empty() && g.flip()) {
      if (g.flip())
        return print_all(g, [&](BufferWriter &w) { w.print_n(binding, tv); });
      return print_all(g, [&](BufferWriter &w) { w.print_nfv(binding, swoc::bwf::Format::bind(tv)); });
    }
    if (g.flip())
      return print_all(g, [&](BufferWriter &w) { w.print_nfv(binding, swoc::bwf::Format::bind(tv), pack); });
    return print_all(g, [&](BufferWriter &w) { w.print_nfv(binding, compiled.bind(), pack); });
  };
  switch (g.draw(2)) {
  case 0: { // context names, with both kinds of generators.
    ContextNames<Ctx> names;
    unsigned n = 0;
    while (g.more(6, n, 14)) {
      ++n;
      auto name = gen_name();
      auto b    = Bound(g.draw(4));
      if (b == Bound::CTX_N)
        names.assign(name, ContextNames<Ctx>::Generator(
                             [](BufferWriter &w, BSpec const &spec, Ctx &c) -> BufferWriter & { return bwformat(w, spec, c.n); }));
      else if (b == Bound::CTX_TAG)
        names.assign(name, ContextNames<Ctx>::Generator([](BufferWriter &w, BSpec const &spec, Ctx &c) -> BufferWriter & {
                       return bwformat(w, spec, c.tag);
                     }));
      else
        names.assign(name, external(b));
      bound[name] = b;
    }
    for (auto const &name : NAMES)
      REQ_EQ(names.contains(name), bound.count(name) > 0);
    got = render(names.bind(ctx));
    // A different context, same names.
    REQ_EQ(got, expect(v, args, bound, ctx), "format ", pbt::esc(fmt));
    ctx.n   ^= 1;
    ctx.tag += "!";
    got      = render(names.bind(ctx));
  } break;
  case 1: {
    auto fill = [&](ExternalNames &names) {
    unsigned n = 0;
    while (g.more(6, n, 14)) {
      ++n;
      auto name = gen_name();
      auto b    = Bound(g.draw(2));
      names.assign(name, external(b));
      bound[name] = b;
    }
    };
    if (g.flip()) {
      ExternalNames names;
      fill(names);
      got = render(names.bind());
    } else { // with initial names, which can be replaced.
      auto n1 = gen_name(), n2 = gen_name();
      auto b1 = Bound(g.draw(2)), b2 = Bound(g.draw(2));
      auto const g1 = external(b1), g2 = external(b2);
      ExternalNames names{{n1, g1}, {n2, g2}};
      bound[n1] = b1;
      bound[n2] = b2;
      fill(names);
      got = render(names.bind());
    }
  } break;
  case 2: { // no names, using one is an error.
    swoc::bwf::NilBinding nil;
    bool threw = false, name_p = false;
    for (auto const &p : v)
      name_p |= p.kind == Piece::NAME;
    try {
      got = render(nil);
    } catch (std::runtime_error const &) {
      threw = true;
    }
    REQ_EQ(threw, name_p, "names used with no binding, format ", pbt::esc(fmt));
    if (threw) {
      g.nontrivial();
      return;
    }
  } break;
  }
  auto want = expect(v, args, bound, ctx);
  g.note("format ", pbt::esc(fmt), " args ", args.size(), " expect ", pbt::esc(want));
  REQ_EQ(got, want, "format ", pbt::esc(fmt));
  stats(g, v, args.size());
}

namespace
{
/// A format parser of its own - the elements are already known. Captures set the width or precision
/// of the following element.
struct Elts {
  struct Elt {
    std::string lit;
    int idx       = -1; // of value to print
    int width_idx = -1; // index of argument for width.
    int prec_idx  = -1;
    ref::Spec spec;
  };
  std::vector<Elt> const &_v;
  size_t _pos     = 0;
  unsigned _phase = 0;
  int _width = -1, _prec = -1;
  unsigned _captures = 0;
  explicit Elts(std::vector<Elt> const &v) : _v(v) {}
  explicit
  operator bool() const
  {
    return _pos < _v.size();
  }
  bool
  operator()(std::string_view &literal, BSpec &spec)
  {
    auto const &e = _v[_pos];
    if (_phase == 0) {
      literal = e.lit;
      _phase  = 1;
      _width = _prec = -1;
      if (e.idx < 0) {
        _phase = 0;
        ++_pos;
        return false;
      }
    }
    if (_phase == 1) {
      _phase = 2;
      if (e.width_idx >= 0) {
        spec._type = BSpec::CAPTURE_TYPE;
        spec._name = "w";
        spec._ext  = "w";
        spec._idx  = e.width_idx;
        return true;
      }
    }
    if (_phase == 2) {
      _phase = 3;
      if (e.prec_idx >= 0) {
        spec._type = BSpec::CAPTURE_TYPE;
        spec._name = "p";
        spec._ext  = "p";
        spec._idx  = e.prec_idx;
        return true;
      }
    }
    spec._name = "v";
    spec._idx  = e.idx;
    if (_width >= 0)
      spec._min = _width;
    if (_prec >= 0)
      spec._prec = _prec;
    if (e.spec.align) {
      spec._align = e.spec.align == '<' ? BSpec::Align::LEFT : e.spec.align == '>' ? BSpec::Align::RIGHT : BSpec::Align::CENTER;
      spec._fill  = e.spec.fill_char();
    }
    _phase = 0;
    ++_pos;
    return true;
  }
  void
  capture(BufferWriter &, BSpec const &spec, std::any const &value)
  {
    int n = -1;
    if (auto p = std::any_cast<int *>(&value))
      n = **p;
    else if (auto p = std::any_cast<int const *>(&value))
      n = **p;
    else if (auto p = std::any_cast<uint64_t *>(&value))
      n = int(**p);
    else if (auto p = std::any_cast<uint64_t const *>(&value))
      n = int(**p);
    REQ(n >= 0, "captured value is not the argument");
    ++_captures;
    if (spec._ext == "w")
      _width = n;
    else
      _prec = n;
  }
};
} // namespace

// Format parsers which capture arguments.
PROPERTY(capture, 2, "an argument was captured")
{
  g.scaled();
  g.huge();
  int w0 = int(g.small(30)), w1 = int(g.small(30));
  uint64_t p0 = g.small(12);
  std::string txt = g.str("abcdefg", 20, 8);
  std::vector<Elts::Elt> v;
  std::string want;
  unsigned n = 0, captures = 0;
  while (g.more(4, n, 10)) {
    ++n;
    Elts::Elt e;
    if (g.flip())
      e.lit = g.str("x{}y:", 4);
    if (g.chance(80)) {
      e.idx = g.draw(4);
      if (g.flip())
        e.width_idx = g.pick({0, 1, 2});
      if (g.flip())
        e.prec_idx = 2;
      if (g.flip()) {
        e.spec.align = g.pick({'<', '>', '^'});
        e.spec.fill  = '*';
      }
    }
    want += e.lit;
    auto s = e.spec;
    if (e.width_idx >= 0)
      s.min = unsigned(e.width_idx == 0 ? w0 : e.width_idx == 1 ? w1 : int(p0)), ++captures;
    if (e.prec_idx >= 0)
      s.prec = int(p0), ++captures;
    switch (e.idx) {
    case -1:
      break;
    case 0:
      want += ref::integer(s, w0);
      break;
    case 1:
      want += ref::integer(s, w1);
      break;
    case 2:
      want += ref::integer(s, p0);
      break;
    case 3:
      want += ref::string(s, txt);
      break;
    case 4:
      want += ref::plain(s, "{BAD_ARG_INDEX:4 of 4}");
      break;
    }
    v.push_back(e);
  }
  swoc::bwf::NilBinding nil;
  unsigned got_captures = 0;
  int const c1          = w1;
  auto got              = print_all(g, [&](BufferWriter &w) {
    Elts ex{v};
    w.print_nfv(nil, ex, swoc::bwf::ArgTuple{std::forward_as_tuple(w0, c1, p0, txt)});
    got_captures = ex._captures;
  });
  REQ_EQ(got, want);
  REQ_EQ(got_captures, captures);
  // The standard parser can't capture.
  if (g.chance(5)) {
    struct Bad {
      bool done = false;
      explicit
      operator bool() const
      {
        return !done;
      }
      bool
      operator()(std::string_view &, BSpec &spec)
      {
        spec._type = BSpec::CAPTURE_TYPE;
        spec._name = "0";
        spec._idx  = 0;
        done       = true;
        return true;
      }
    };
    bool threw = false;
    try {
      swoc::FixedBufferWriter w{nullptr};
      w.print_nfv(nil, Bad{}, swoc::bwf::ArgTuple{std::forward_as_tuple(w0)});
    } catch (std::runtime_error const &) {
      threw = true;
    }
    REQ(threw, "capture without support");
  }
  g.nontrivial(captures > 0);
}

PROPERTY(many, 1, "more than 255 items")
{
  // Formats with many items, and indices around the limits of integral types.
  size_t n = g.bulk(40, 70000);
  if (!n)
    n = g.draw(300);
  unsigned k = unsigned(g.draw(3));
  auto base  = g.pick({0u, 0u, 256u, 65536u, 1u << 24});
  std::string fmt, want;
  auto arg = [&](size_t i) -> std::string {
    switch (i < k ? i : 3) {
    case 0:
      return "zero";
    case 1:
      return "1";
    case 2:
      return "two";
    }
    return "{BAD_ARG_INDEX:" + std::to_string(i) + " of " + std::to_string(k) + "}";
  };
  bool implicit = g.flip();
  for (size_t i = 0; i < n; ++i) {
    if (implicit) {
      fmt  += "{}";
      want += arg(i);
    } else {
      size_t idx = base + i % 5;
      fmt       += "{" + std::to_string(idx) + "}";
      want      += arg(idx);
    }
    if (i % 7 == 0) {
      fmt  += ",";
      want += ",";
    }
  }
  g.note("items ", n, " args ", k, implicit ? " implicit" : " from ", base);
  bool parsed = g.flip();
  auto out    = [&](auto &&...args) {
    std::string s;
    if (parsed) {
      swoc::bwf::Format f{TextView(fmt)};
      s.assign(want.size() + 100, '#');
      swoc::FixedBufferWriter w{s.data(), s.size()};
      w.print(f, args...);
      s.resize(w.size());
      REQ(!w.error(), "size is ", w.extent());
    }    else
      swoc::bwprint(s, TextView(fmt), args...);
    return s;
  };
  std::string got = k == 0 ? out() : k == 1 ? out("zero") : k == 2 ? out("zero", 1) : out("zero", 1, std::string("two"));
  REQ(got == want, "output ", pbt::esc(got), " expected ", pbt::esc(want));
  g.nontrivial(n > 255);
}
