// B04 - floating point formatting: value within half a unit of the last digit, exact shape.
#include "bwf_util.h"
#include <cmath>
#include <cfloat>
using swoc::BufferWriter;
using swoc::TextView;
using pbt::Src;

namespace
{
double
gen_double(Src &g)
{
  double f = 0;
  switch (g.weighted({4, 4, 3, 2, 2, 2, 1})) {
  case 0: // a few decimal digits
    f = double(g.small(100000)) / double(g.pick({1, 10, 100, 1000, 10000, 100000}));
    break;
  case 1: { // close to where carry or leading zeros matter.
    double whole = double(g.small(1000));
    double p     = std::pow(10.0, -double(g.draw(12)));
    f            = whole + (g.flip() ? 1 - p : p) + (g.flip() ? p / 2 : 0);
  } break;
  case 2: { // any normal double.
    uint64_t bits = g.edgy();
    memcpy(&f, &bits, sizeof f);
  } break;
  case 3: // powers of two and neighbors.
    f = std::ldexp(1.0, int(g.draw(2000)) - 1000);
    if (g.flip())
      f = std::nextafter(f, g.flip() ? 0 : INFINITY);
    break;
  case 4: // large
    f = double(g.edgy()) + (g.flip() ? 0.5 : 0);
    break;
  case 5: // powers of 10 and neighbors
    f = std::pow(10.0, int(g.draw(40)) - 20);
    if (g.flip())
      f = std::nextafter(f, g.flip() ? 0 : INFINITY);
    break;
  case 6:
    f = g.pick({0.0, -0.0, double(INFINITY), double(NAN), DBL_MAX, DBL_MIN, 0.5, 0.125, 2.5, 9007199254740991.5});
    break;
  }
  return g.chance(35) ? -f : f;
}

/// The number without alignment, or what's special. Checked to be correct.
std::string
core(Src &g, ref::Spec s, double f, std::string const &got)
{
  double mag    = std::fabs(f);
  bool neg      = f < 0;
  std::string sign = s.sign == ' ' ? "" : neg ? "-" : s.sign == '+' ? "+" : "";
  if (std::isnan(f)) {
    REQ_EQ(got, std::string("NaN"));
    return {};
  }
  if (f == 0) {
    REQ(got == "0" || got == sign + "0", got);
    return got.size() > 1 ? sign : std::string{};
  }
  if (std::isinf(f)) {
    REQ_EQ(got, sign + "Inf");
    return sign;
  }
  if (!std::isnormal(f)) // documented only by the code.
    return got == "subnormal" ? std::string{} : sign;
  std::string t{got};
  REQ_EQ(t.substr(0, sign.size()), sign, "in ", got);
  t.erase(0, sign.size());
  char want[1600];
  if (s.prec == 0 || mag == std::floor(mag)) {
    snprintf(want, sizeof want, "%.0f", std::floor(mag));
    REQ_EQ(t, std::string(want), "whole number of ", f);
    return sign;
  }
  int p    = s.prec < 0 ? 2 : s.prec;
  auto dot = t.find('.');
  REQ(dot != t.npos && dot > 0, "no decimal point in ", got);
  REQ(t.find_first_not_of("0123456789.") == t.npos, got);
  REQ_EQ(t.size() - dot - 1, size_t(p), "digits in fraction of ", got);
  REQ(dot == 1 || t[0] != '0', "leading zero in ", got);
  snprintf(want, sizeof want, "%.*f", p, mag);
  if (t != want) { // Must be very close anyway.
    long double v = strtold(t.c_str(), nullptr);
    long double d = v > mag ? v - mag : mag - v;
    long double tolerance = 0.5L * powl(10.0L, -p) + (long double)mag * DBL_EPSILON;
    auto beyond = dot + 1 + 1074; // no double has more digits in the fraction.
    REQ(t.size() <= beyond || t.find_first_not_of('0', beyond) == t.npos, "digits past the value in ", got);
    REQ(d <= tolerance * (1 + 1e-12L), "value ", f, " precision ", p, " got ", got, " expected ", want);
    g.label("not as printf");
  }
  g.label("carry", std::floor(mag) != std::floor(strtod(want, nullptr)));
  g.label("leading zero in fraction", t[dot + 1] == '0');
  return sign;
}
} // namespace

PROPERTY(number, 5, "not an integral value, or not normal, or too large for an integer")
{
  auto s = ref::gen_spec(g, "gdsSxX");
  if (g.chance(40))
    s.prec = int(g.chance(10) ? g.draw(1200) : g.draw(22));
  double f   = gen_double(g);
  bool float_p = g.chance(20);
  if (float_p)
    f = double(float(f));
  ref::Spec bare = s;
  bare.min = 0, bare.max = -1, bare.align = 0, bare.fill = -1, bare.zero = false;
  auto print = [&](std::string const &fmt) {
    Exact e{fmt};
    return print_all(g, [&](BufferWriter &w) {
      if (float_p)
        w.print(TextView(e.view()), float(f));
      else
        w.print(TextView(e.view()), f);
    });
  };
  auto fmt0 = "{" + ref::text(g, bare) + "}";
  auto txt  = print(fmt0);
  g.note(f, " format ", fmt0, " gives ", txt);
  auto sign = core(g, s, f, txt);
  REQ_EQ(txt.substr(0, sign.size()), sign);
  auto fmt  = "{" + ref::text(g, s) + "}";
  auto all  = print(fmt);
  auto want = ref::place(s, sign, txt.substr(sign.size()), s.alignment());
  g.note(" format ", fmt, " gives ", all);
  bool special = f == 0 || !std::isnormal(f);
  if (special) // not a number, really.
    REQ(ref::same(s, all, want, txt), "format ", pbt::esc(fmt), " got ", pbt::esc(all), " expected ", pbt::esc(want));
  else
    REQ_EQ(all, want, "format ", pbt::esc(fmt), " value ", f);
  g.nontrivial(f != std::floor(f) || special || std::fabs(f) > 1e18);
}

// Printed values keep the order of the values.
PROPERTY(order, 2, "values differ by less than 1, both have a fraction")
{
  double a = gen_double(g);
  double b = a;
  switch (g.draw(2)) {
  case 0:
    b = std::nextafter(a, INFINITY);
    break;
  case 1:
    b = a + std::pow(10.0, -double(g.draw(8)));
    break;
  case 2:
    b = gen_double(g);
    break;
  }
  if (!std::isnormal(a) || !std::isnormal(b))
    g.discard();
  if (b < a)
    std::swap(a, b);
  unsigned p = 1 + g.draw(16);
  auto show  = [&](double f) {
    swoc::LocalBufferWriter<512> w;
    w.print(TextView("{:." + std::to_string(p) + "}"), f);
    REQ(!w.error());
    return strtold(std::string(std::string_view(w.view())).c_str(), nullptr);
  };
  auto x = show(a), y = show(b);
  REQ(x <= y, "precision ", p, " values ", a, " ", b, " printed ", (double)x, " ", (double)y);
  g.nontrivial(b - a < 1 && a != std::floor(a) && b != std::floor(b));
}
