// T04 - text to floating point conversion is within one epsilon of the exact value.
#include "util.h"
#include "swoc/TextView.h"
#include <cmath>
#include <cfloat>
using swoc::TextView;
using pbt::Src;

namespace
{
bool
close(double got, double exact)
{
  if (std::isinf(exact) || std::isinf(got)) {
    if (got == exact)
      return true;
    // at the very edge of the range rounding may go either way
    double f = std::isinf(exact) ? got : exact, i = std::isinf(exact) ? exact : got;
    return (f > 0) == (i > 0) && std::fabs(f) >= DBL_MAX * (1 - 2 * DBL_EPSILON);
  }
  return std::fabs(got - exact) <= DBL_EPSILON * std::fabs(exact) + 2 * 4.9406564584124654e-324;
}
} // namespace

PROPERTY(parse, 5, "has a fraction or an exponent, and at least 3 digits")
{
  g.scaled();
  g.huge();
  // text = [sign] digits [. digits] [e [sign] digits] tail
  std::string sign = g.chance(30) ? g.pick({std::string("-"), std::string("+")}) : "";
  std::string num;
  auto run = [&](unsigned max) {
    if (g.chance(20))
      return std::to_string(g.edgy());
    return g.str("0123456789", max, 4);
  };
  std::string whole = run(30), frac, exp;
  num               = whole;
  bool dot          = g.flip();
  if (dot) {
    frac = run(30);
    num += '.' + frac;
  }
  if (whole.empty() && frac.empty())
    g.discard();
  bool has_exp = g.flip();
  if (has_exp) {
    std::string d = g.chance(80) ? std::to_string(g.draw(40)) : g.chance(70) ? std::to_string(g.draw(400)) : std::to_string(g.edgy());
    exp           = std::string(1, g.flip() ? 'e' : 'E') + (g.chance(40) ? "-" : g.chance(30) ? "+" : "") + d;
  }
  std::string text = sign + num + exp;
  // a tail that can't continue the number
  std::string tail = g.chance(70) ? "" : g.pick({std::string(" "), std::string(","), std::string("x"), std::string(" 12"), std::string("/5")});
  std::string all  = text + tail;
  Exact mem(all);
  TextView parsed = g.flip() ? TextView("stale") : TextView{};
  double got      = swoc::svtod(mem.view(), &parsed);
  double want     = std::strtod(text.c_str(), nullptr);
  g.note("\"", all, "\" -> ", got, " parsed \"", pbt::esc(parsed), "\"");
  REQ(close(got, want), "\"", all, "\" got ", pbt_show(got), " expected ", pbt_show(want));
  REQ_EQ(std::string_view(parsed), std::string_view(text), "parsed text");
  REQ(parsed.data() == mem.p, "parsed text");
  REQ_EQ(swoc::svtod(mem.view()), got);
  g.label("exponent", has_exp);
  g.label("negative", !sign.empty() && sign[0] == '-');
  g.label("infinite", std::isinf(want));
  g.label("subnormal or zero", std::fabs(want) < DBL_MIN);
  g.nontrivial((dot || has_exp) && num.size() >= 3);
}

// Arbitrary text is handled cleanly, and the parsed text is a prefix of it.
PROPERTY(arbitrary, 2, "a non-empty part was parsed")
{
  g.scaled();
  g.huge();
  std::string s = g.chance(50) ? g.str("0123456789.eE+- x", 24, 7) : g.bytes(16, 6);
  Exact mem(s);
  TextView parsed;
  double d = swoc::svtod(mem.view(), &parsed);
  g.note("\"", pbt::esc(s), "\" -> ", d, " parsed \"", pbt::esc(parsed), "\"");
  REQ(!std::isnan(d), "not a number from \"", pbt::esc(s), "\"");
  REQ(parsed.size() <= s.size());
  if (!parsed.empty())
    REQ(parsed.data() == mem.p);
  if (!s.empty() && parsed.size() == 0)
    REQ_EQ(d, 0.0, "nothing parsed");
  g.nontrivial(!parsed.empty());
}

// Doubles printed with enough digits survive.
PROPERTY(round_trip, 2, "the value is finite and not an integer")
{
  g.scaled();
  g.huge();
  uint64_t bits = g.edgy();
  if (g.flip())
    bits = (bits & 0x800fffffffffffffull) | ((1023 - 60 + g.draw(120)) << 52);
  double d;
  memcpy(&d, &bits, 8);
  if (!std::isfinite(d))
    g.discard();
  char b[400];
  snprintf(b, sizeof b, g.pick({"%.17g", "%.17e", "%.20g"}), d);
  TextView parsed;
  std::string s(b);
  double got = swoc::svtod(s, &parsed);
  g.note(s, " -> ", got);
  REQ(close(got, d), s, " got ", pbt_show(got));
  REQ_EQ(parsed.size(), s.size());
  g.nontrivial(d != std::floor(d));
}
