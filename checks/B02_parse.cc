// B02 - arbitrary text as a format, or as a specifier.
#include "bwf_util.h"
#include "swoc/bwf_std.h"
#include "swoc/bwf_ex.h"
#include "swoc/MemSpan.h"
#include <optional>
using swoc::BufferWriter;
using swoc::TextView;
using swoc::bwf::Format;
using BSpec = swoc::bwf::Spec;
using pbt::Src;

namespace
{
constexpr std::string_view META = "{}{}::<>^=+-# 0123456789.,gsSxXdobBpP%{{}}a~\x80\xFF";

/// Very wide output isn't interesting, it just takes forever. Limit to what can be done.
std::string
tame(std::string s)
{
  std::string z;
  for (size_t i = 0; i < s.size();) {
    size_t j = i;
    while (j < s.size() && isdigit((unsigned char)s[j]))
      ++j;
    if (j == i) {
      z += s[i++];
      continue;
    }
    char before = z.empty() ? 0 : z.back();
    auto run    = s.substr(i, j - i);
    if (before != ',' && before != '{' && run.size() > 3)
      run.resize(3);
    z += run;
    i  = j;
  }
  return z;
}

std::string
gen_specifier(Src &g)
{
  std::string z;
  switch (g.weighted({4, 4, 2})) {
  case 0: { // valid, perhaps with some damage.
    std::string name;
    switch (g.draw(3)) {
    case 0:
      name = std::to_string(g.chance(10) ? g.edgy() : g.small(8));
      break;
    case 1:
      name = g.str("abc-_9", 5);
      break;
    }
    z = name + ref::text(g, ref::gen_spec(g));
    while (g.chance(40)) {
      size_t at = g.draw(z.size());
      if (g.flip() && at < z.size())
        z.erase(at, 1);
      else
        z.insert(at, 1, g.flip() ? META[g.draw(META.size() - 1)] : char(g.draw(255)));
    }
  } break;
  case 1:
    z = (g.flip() ? ":" : "") + g.str(META, 12, 5);
    break;
  case 2:
    z = g.bytes(20, 5);
    break;
  }
  if (g.chance(10)) // numbers that don't fit.
    z += g.pick({",99999999999999999999", ",4294967296", ",4294967297", ",2147483648", ",18446744073709551616"});
  return z;
}

std::string
gen_format(Src &g)
{
  std::string z;
  unsigned n = 0;
  if (g.chance(15))
    return tame(g.bytes(60, 12));
  while (g.more(5, n, 14)) {
    ++n;
    switch (g.weighted({5, 2, 1, 1})) {
    case 0:
      z += "{" + gen_specifier(g) + "}";
      break;
    case 1:
      z += g.str("abc 123:", 8, 3);
      break;
    case 2:
      z += g.flip() ? "{{" : "}}";
      break;
    case 3:
      z += g.str(META, 6, 2);
      break;
    }
  }
  return tame(z);
}

struct Elt {
  bool spec_p = false;
  std::string text; // literal text or specifier content.
};

/// Split as documented, nothing if the braces are not correct.
std::optional<std::vector<Elt>>
split(std::string_view f)
{
  std::vector<Elt> v;
  auto lit = [&](std::string_view s) {
    if (v.empty() || v.back().spec_p)
      v.push_back({});
    v.back().text += s;
  };
  while (!f.empty()) {
    char c = f[0];
    if (c != '{' && c != '}') {
      lit(f.substr(0, 1));
      f.remove_prefix(1);
    } else if (f.size() > 1 && f[1] == c) {
      lit(f.substr(0, 1));
      f.remove_prefix(2);
    } else if (c == '}') {
      return {};
    } else {
      auto n = f.find('}');
      if (n == f.npos)
        return {};
      v.push_back({true, std::string(f.substr(1, n - 1))});
      f.remove_prefix(n + 1);
    }
  }
  return v;
}

struct Result {
  bool threw = false;
  std::string text;
  size_t extent = 0;
};

template <typename F>
Result
attempt(F const &f)
{
  Result r;
  try {
    swoc::FixedBufferWriter measure{nullptr};
    f(measure);
    r.extent = measure.extent();
    REQ(r.extent < (1u << 24), "size of output ", r.extent);
    Exact e{std::string(r.extent, '\x5A')};
    swoc::FixedBufferWriter w{e.p, e.n};
    f(w);
    REQ_EQ(w.extent(), r.extent);
    r.text = std::string_view(w.view());
  } catch (std::invalid_argument const &) {
    r.threw = true;
  }
  return r;
}

/// Everything for one set of arguments, all of which are the same value, so that which one is used
/// doesn't matter.
template <typename V>
void
check(Src &g, std::string const &fmt, V const &v)
{
  constexpr unsigned N = 3;
  Exact e{fmt};
  TextView tv{e.view()};
  auto direct = attempt([&](BufferWriter &w) { w.print(tv, v, v, v); });
  std::optional<Format> compiled;
  try {
    compiled.emplace(tv);
  } catch (std::invalid_argument const &) {
  }
  REQ_EQ(direct.threw, !compiled.has_value(), "direct rendering and compiling ", pbt::esc(fmt));
  auto parts = split(fmt);
  g.note("format ", pbt::esc(fmt), direct.threw ? " threw" : " gives ", pbt::esc(direct.text));
  if (!parts)
    REQ(direct.threw, "unbalanced braces accepted in ", pbt::esc(fmt));
  g.label("rejected", direct.threw);
  if (compiled) {
    auto again = attempt([&](BufferWriter &w) { w.print(*compiled, v, v, v); });
    REQ(!again.threw, pbt::esc(fmt));
    REQ_EQ(again.text, direct.text, "compiled and direct ", pbt::esc(fmt));
    // Clipped
    if (direct.extent) {
      size_t k = g.draw(direct.extent - 1);
      Exact ee{std::string(k, '\x5A')};
      swoc::FixedBufferWriter w{ee.p, ee.n};
      w.print(*compiled, v, v, v);
      REQ_EQ(w.extent(), direct.extent, "extent in a buffer of ", k, " for ", pbt::esc(fmt));
      REQ_EQ(std::string(std::string_view(w.view())), direct.text.substr(0, k), pbt::esc(fmt));
    }
    // Each piece by itself.
    std::string want;
    unsigned idx = 0, specs = 0;
    bool literal_p = true;
    for (auto const &p : *parts) {
      if (!p.spec_p) {
        want += p.text;
        continue;
      }
      ++specs;
      literal_p = false;
      auto t    = p.text;
      if (t.empty() || t[0] == ':')
        t = std::to_string(idx++) + t;
      auto one = attempt([&](BufferWriter &w) { w.print(TextView("{" + t + "}"), v, v, v); });
      REQ(!one.threw, "element ", pbt::esc(t), " in ", pbt::esc(fmt));
      want += one.text;
    }
    REQ_EQ(direct.text, want, "composition of ", pbt::esc(fmt));
    REQ_EQ(compiled->is_literal(), literal_p, pbt::esc(fmt));
    g.label("accepted with specifiers", specs > 0);
    // Numbers too large for an argument index are not arguments.
    for (auto const &p : *parts)
      if (p.spec_p) {
        auto name = p.text.substr(0, p.text.find(':'));
        if (!name.empty() && name.size() > 9 && name.find_first_not_of("0123456789") == name.npos &&
            name.find_first_not_of("0") != name.npos && name.substr(name.find_first_not_of("0")).size() > 9) {
          auto one = attempt([&](BufferWriter &w) { w.print(TextView("{" + name + "}"), v, v, v); });
          REQ(one.text.rfind("{BAD_ARG_INDEX:", 0) == 0, "index ", name, " gives ", one.text);
          g.label("huge index");
        }
      }
    g.nontrivial(specs > 0 && fmt.size() > 2);
  } else if (parts) {
    // The braces are good, so one of the specifiers is not.
    bool bad = false;
    for (auto const &p : *parts)
      if (p.spec_p) {
        BSpec spec;
        Exact ee{p.text};
        try {
          spec.parse(TextView(ee.view()));
        } catch (std::invalid_argument const &) {
          bad = true;
        }
      }
    REQ(bad, "rejected for no reason : ", pbt::esc(fmt));
    g.nontrivial();
  } else {
    g.nontrivial(fmt.size() > 1);
  }
}
} // namespace

PROPERTY(format, 8, "accepted with a specifier, or rejected and not one character")
{
  g.scaled();
  g.huge();
  auto fmt = gen_format(g);
  switch (g.draw(10)) {
  case 0:
    return check(g, fmt, int(g.edgy()));
  case 1:
    return check(g, fmt, std::string("Evil Dave"));
  case 2:
    return check(g, fmt, g.flip());
  case 3:
    return check(g, fmt, 'z');
  case 4:
    return check(g, fmt, double(g.edgy_int()) / 7);
  case 5:
    return check(g, fmt, swoc::MemSpan<void const>(META.data(), g.draw(META.size())));
  case 6:
    return check(g, fmt, swoc::bwf::Errno(int(g.small(200))));
  case 7:
    return check(g, fmt, std::error_code(int(g.small(200)), std::generic_category()));
  case 8:
    return check(g, fmt, swoc::bwf::UnHex(swoc::MemSpan<void const>("48656c6c6f", 10)));
  case 9:
    return check(g, fmt, swoc::bwf::Pattern{int(g.draw(5)), "xyz"});
  default:
    return check(g, fmt, swoc::bwf::Date(time_t(g.draw(2000000000)), "%c"));
  }
}

// Specifier text by itself never has an effect outside of the instance.
PROPERTY(specifier, 4, "accepted with a style, or rejected")
{
  g.scaled();
  g.huge();
  auto txt = gen_specifier(g);
  Exact e{txt};
  struct {
    char before[64];
    BSpec spec;
    char after[64];
  } z;
  memset(z.before, 0x5A, sizeof z.before);
  memset(z.after, 0x5A, sizeof z.after);
  bool threw = false;
  try {
    REQ(z.spec.parse(TextView(e.view())), "parse is always successful");
  } catch (std::invalid_argument const &) {
    threw = true;
  }
  for (char c : z.before)
    REQ(c == 0x5A);
  for (char c : z.after)
    REQ(c == 0x5A);
  auto colon = txt.find(':');
  auto name  = txt.substr(0, colon);
  g.note(pbt::esc(txt), threw ? " threw" : "");
  REQ_EQ(std::string(z.spec._name), name);
  if (colon != txt.npos) { // An encoded fill has to be complete.
    auto f = txt.substr(colon + 1, txt.find(':', colon + 1) - colon - 1);
    if (!f.empty() && f[0] == '%') {
      bool good = f.size() >= 4 && isxdigit((unsigned char)(f[1])) && isxdigit((unsigned char)(f[2])) && strchr("<>^=", f[3]) && f[3];
      REQ(good || threw, "accepted fill ", pbt::esc(txt));
      g.label("encoded fill", good);
    }
  }
  if (!threw) {
    REQ(BSpec::is_type(z.spec._type), "type ", int(z.spec._type), " from ", pbt::esc(txt));
    REQ(z.spec._sign == '+' || z.spec._sign == '-' || z.spec._sign == ' ', "sign ", int(z.spec._sign), " from ", pbt::esc(txt));
    REQ(z.spec._align >= BSpec::Align::NONE && z.spec._align <= BSpec::Align::SIGN);
    REQ(z.spec._prec >= -1);
    REQ(z.spec._idx >= -1);
    REQ(z.spec._min <= 0x7FFFFFFF, "minimum width ", z.spec._min, " from ", pbt::esc(txt));
    std::string ext;
    if (colon != txt.npos)
      if (auto n = txt.find(':', colon + 1); n != txt.npos)
        ext = txt.substr(n + 1);
    REQ_EQ(std::string(z.spec._ext), ext, pbt::esc(txt));
  }
  g.nontrivial(threw || colon != txt.npos);
}

// The text of a specifier by the grammar becomes those values.
PROPERTY(fields, 3, "an alignment or width")
{
  auto want        = ref::gen_spec(g, "gsSxXdobBpP");
  std::string name = g.chance(60) ? "" : g.flip() ? g.str("abc-_", 5) : std::to_string(g.small(40));
  auto txt         = name + ref::text(g, want);
  Exact e{txt};
  g.note(pbt::esc(txt));
  BSpec spec;
  REQ(spec.parse(TextView(e.view())), pbt::esc(txt));
  REQ_EQ(std::string(spec._name), name, pbt::esc(txt));
  REQ_EQ(spec._idx, !name.empty() && isdigit((unsigned char)name[0]) ? atoi(name.c_str()) : name.empty() ? spec._idx : -1, pbt::esc(txt));
  using Align = BSpec::Align;
  Align align = Align::NONE;
  switch (want.alignment()) {
  case '<':
    align = Align::LEFT;
    break;
  case '>':
    align = Align::RIGHT;
    break;
  case '^':
    align = Align::CENTER;
    break;
  case '=':
    align = Align::SIGN;
    break;
  }
  REQ(spec._align == align, "alignment ", int(spec._align), " of ", pbt::esc(txt));
  REQ_EQ(spec._fill, want.fill_char(), "fill of ", pbt::esc(txt));
  REQ_EQ(spec._sign, want.sign ? want.sign : BSpec::SIGN_NEG, "sign of ", pbt::esc(txt));
  REQ_EQ(spec._radix_lead_p, want.prefix, "radix lead of ", pbt::esc(txt));
  REQ_EQ(spec._min, want.min, "minimum of ", pbt::esc(txt));
  REQ_EQ(spec._prec, want.prec, "precision of ", pbt::esc(txt));
  REQ_EQ(spec._max, want.max < 0 ? std::numeric_limits<unsigned>::max() : unsigned(want.max), "maximum of ", pbt::esc(txt));
  REQ_EQ(spec._type, want.type ? want.type : BSpec::DEFAULT_TYPE, "type of ", pbt::esc(txt));
  REQ_EQ(std::string(spec._ext), want.has_ext ? want.ext : "", "extension of ", pbt::esc(txt));
  g.nontrivial(want.align || want.min);
}

// Numbers in the specifier are those numbers, or a limit if too large.
PROPERTY(numbers, 2, "a number does not fit in 31 bits")
{
  g.scaled();
  g.huge();
  auto gen = [&]() -> std::string {
    if (g.chance(20))
      return g.str("0123456789", 30, 15) + "7";
    return std::to_string(g.edgy());
  };
  auto value = [](std::string const &s) -> unsigned __int128 {
    unsigned __int128 n = 0;
    for (char c : s)
      n = std::min<unsigned __int128>(n * 10 + (c - '0'), (unsigned __int128)1 << 100);
    return n;
  };
  std::string idx = gen(), min = gen(), prec = gen(), max = gen();
  min.erase(0, min.find_first_not_of("0"));
  if (min.empty())
    min = "1";
  auto txt = idx + ":" + min + "." + prec + "," + max;
  BSpec spec;
  REQ(spec.parse(TextView(txt)));
  auto lim = [&](std::string const &s, uint64_t n) { return uint64_t(std::min<unsigned __int128>(value(s), n)); };
  constexpr uint64_t I = 0x7FFFFFFF;
  g.note(txt);
  REQ_EQ(uint64_t(spec._idx), lim(idx, I), txt);
  REQ_EQ(uint64_t(spec._prec), lim(prec, I), txt);
  // limit is either that for signed or unsigned.
  REQ(uint64_t(spec._min) == lim(min, I) || (value(min) > I && uint64_t(spec._min) == lim(min, 0xFFFFFFFF)), txt, " min ", spec._min);
  REQ(uint64_t(spec._max) == lim(max, 0xFFFFFFFF) || (value(max) > I && spec._max >= I), txt, " max ", spec._max);
  g.nontrivial(value(idx) > I || value(min) > I || value(prec) > I || value(max) > I);
}

// Text with the braces doubled is itself.
PROPERTY(literal, 2, "has a brace")
{
  g.scaled();
  g.huge();
  auto txt = g.chance(50) ? g.str("{}abc:", 20, 6) : g.bytes(40, 10);
  std::string fmt;
  bool brace = false;
  for (char c : txt) {
    if (c == '{' || c == '}') {
      fmt   += c;
      brace  = true;
    }
    fmt += c;
  }
  Exact e{fmt};
  TextView tv{e.view()};
  REQ_EQ(print_all(g, [&](BufferWriter &w) { w.print(tv); }), txt);
  Format compiled{tv};
  REQ(compiled.is_literal());
  REQ_EQ(print_all(g, [&](BufferWriter &w) { w.print(compiled, 1, 2); }), txt);
  std::string concat;
  for (auto const &s : compiled)
    concat += s._ext;
  REQ_EQ(concat, txt);
  g.nontrivial(brace);
}
