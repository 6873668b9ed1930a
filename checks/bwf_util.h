// A reference for format specifiers and the basic types - what the documentation says.
#pragma once
#include "util.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include <string>
#include <vector>
#include <optional>

namespace ref
{
using pbt::Src;

struct Spec {
  int fill    = -1;   // explicit fill character.
  char align  = 0;    // one of < > ^ = or 0
  char sign   = 0;    // + - space or 0
  bool prefix = false;
  bool zero   = false;
  unsigned min = 0;
  int prec     = -1;
  int64_t max  = -1;
  char type    = 0;
  std::string ext;
  bool has_ext = false;

  char
  fill_char() const
  {
    return zero ? '0' : fill >= 0 ? char(fill) : ' ';
  }
  char
  alignment() const
  {
    return align ? align : zero ? '=' : 0;
  }
  char
  style() const
  {
    return type ? type : 'g';
  }
  bool
  empty() const
  {
    return fill < 0 && !align && !sign && !prefix && !zero && !min && prec < 0 && max < 0 && !type && !has_ext;
  }
};

/// The text of the specifier, from after the name. @a g decides among equivalent texts.
inline std::string
text(Src &g, Spec const &s)
{
  static const char *HEX[] = {"0123456789abcdef", "0123456789ABCDEF"};
  std::string z;
  if (s.empty())
    return g.chance(30) ? ":" : "";
  z = ":";
  if (s.align) {
    if (s.fill >= 0) {
      auto c = (unsigned char)s.fill;
      if (c == '{' || c == '}' || c == ':' || c == '%' || g.chance(25)) {
        auto h  = HEX[g.draw(1)];
        z      += '%';
        z      += h[c >> 4];
        z      += h[c & 0xF];
      } else {
        z += char(c);
      }
    }
    z += s.align;
  }
  if (s.sign)
    z += s.sign;
  if (s.prefix)
    z += '#';
  if (s.zero)
    z += '0';
  if (s.min)
    z += std::to_string(s.min);
  if (s.prec >= 0)
    z += "." + std::to_string(s.prec);
  bool late = s.max >= 0 && g.flip();
  if (s.type && !late)
    z += s.type;
  if (s.max >= 0)
    z += "," + std::to_string(s.max);
  if (s.type && late)
    z += s.type;
  if (s.has_ext)
    z += ":" + s.ext;
  return z;
}

inline Spec
gen_spec(Src &g, std::string_view types = "gsSxXdobBpP")
{
  Spec s;
  if (g.chance(10))
    return s;
  if (g.chance(55)) {
    s.align = g.pick({'<', '>', '^', '='});
    if (g.chance(60))
      s.fill = g.chance(70) ? "*_.-0 <>=^+#x9"[g.draw(13)] : int(g.draw(255));
  }
  if (g.chance(30))
    s.sign = g.pick({'+', '-', ' '});
  s.prefix = g.chance(30);
  s.zero   = g.chance(15);
  if (g.chance(60))
    s.min = 1 + (g.chance(4) ? g.draw(400) : g.small(30));
  if (g.chance(20))
    s.prec = int(g.small(20));
  if (g.chance(25))
    s.max = g.chance(10) ? int64_t(g.draw(0xFFFFFFFF)) : int64_t(g.small(40));
  if (g.chance(60))
    s.type = types[g.draw(types.size() - 1)];
  if (g.chance(10)) {
    s.has_ext = true;
    s.ext     = g.str("abc:<>019 %#", 6);
  }
  return s;
}

/// @a body placed in the field.
/// @a sign is what is before the fill for numeric alignment.
inline std::string
place(Spec const &s, std::string const &sign, std::string const &body, char align)
{
  size_t n = sign.size() + body.size();
  size_t k = s.min > n ? s.min - n : 0;
  std::string z;
  switch (align) {
  case '>':
    z = std::string(k, s.fill_char()) + sign + body;
    break;
  case '^':
    z = std::string(k / 2, s.fill_char()) + sign + body + std::string(k - k / 2, s.fill_char());
    break;
  case '=':
    z = sign + std::string(k, s.fill_char()) + body;
    break;
  default:
    z = sign + body + std::string(k, s.fill_char());
    break;
  }
  if (s.max >= 0 && z.size() > size_t(s.max))
    z.resize(s.max);
  return z;
}

inline std::string
radix(uintmax_t n, unsigned r, bool upper)
{
  std::string z;
  do {
    unsigned d = n % r;
    z.insert(z.begin(), d < 10 ? char('0' + d) : char((upper ? 'A' : 'a') + d - 10));
    n /= r;
  } while (n);
  return z;
}

inline std::string
integer(Spec const &s, uintmax_t mag, bool neg)
{
  std::string sign, digits;
  if (s.sign != ' ') {
    if (neg)
      sign = "-";
    else if (s.sign == '+')
      sign = "+";
  }
  std::string prefix;
  switch (s.style()) {
  case 'x':
    digits = radix(mag, 16, false);
    prefix = "0x";
    break;
  case 'X':
    digits = radix(mag, 16, true);
    prefix = "0X";
    break;
  case 'b':
    digits = radix(mag, 2, false);
    prefix = "0b";
    break;
  case 'B':
    digits = radix(mag, 2, true);
    prefix = "0B";
    break;
  case 'o':
    digits = radix(mag, 8, false);
    prefix = "0";
    break;
  default:
    digits = std::to_string(mag);
  }
  if (s.prefix)
    sign += prefix;
  return place(s, sign, digits, s.alignment());
}

template <typename I>
std::string
integer(Spec const &s, I n)
{
  bool neg = n < 0;
  return integer(s, neg ? uintmax_t(0) - uintmax_t(n) : uintmax_t(n), neg);
}

inline std::string
hex(std::string_view sv, bool upper)
{
  std::string z;
  for (unsigned char c : sv) {
    z += radix(c >> 4, 16, upper);
    z += radix(c & 15, 16, upper);
  }
  return z;
}

inline std::string
dump(Spec const &s, std::string_view sv)
{
  bool upper = s.style() == 'X';
  return place(s, "", (s.prefix ? upper ? "0X" : "0x" : "") + hex(sv, upper), s.alignment() == '=' ? '>' : s.alignment());
}

inline std::string
recase(std::string_view sv, bool upper)
{
  std::string z{sv};
  for (char &c : z)
    if (upper ? (c >= 'a' && c <= 'z') : (c >= 'A' && c <= 'Z'))
      c ^= 0x20;
  return z;
}

inline std::string
string(Spec const &s, std::string_view sv)
{
  if (s.prec > 0)
    sv = sv.substr(0, s.prec);
  switch (s.style()) {
  case 'x':
  case 'X':
    return dump(s, sv);
  case 's':
    return place(s, "", recase(sv, false), s.alignment());
  case 'S':
    return place(s, "", recase(sv, true), s.alignment());
  default:
    return place(s, "", std::string(sv), s.alignment() == '=' ? '>' : s.alignment());
  }
}

/// Text which isn't aligned by itself.
inline std::string
plain(Spec const &s, std::string const &text)
{
  return place(s, "", text, s.alignment());
}

inline std::string
pointer(Spec s, void const *p)
{
  if (p == nullptr) {
    if (s.style() == 's' || s.style() == 'S')
      return string(s, "null");
    if (s.style() == 'g')
      return plain(s, "");
  }
  s.prefix = true;
  if (s.style() == 'g' || s.style() == 'p')
    s.type = 'x';
  else if (s.style() == 'P')
    s.type = 'X';
  return integer(s, uintmax_t(uintptr_t(p)), false);
}

inline std::string
boolean(Spec const &s, bool b)
{
  switch (s.style()) {
  case 's':
    return plain(s, b ? "true" : "false");
  case 'S':
    return plain(s, b ? "TRUE" : "FALSE");
  default:
    return integer(s, uintmax_t(b), false);
  }
}

inline std::string
span(Spec const &s, void const *p, size_t n, size_t elt)
{
  if (s.style() == 'x' || s.style() == 'X') {
    bool upper   = s.style() == 'X';
    size_t block = s.prec > 0 ? s.prec : elt ? elt : n;
    std::string z;
    std::string_view sv{static_cast<char const *>(p), n};
    while (!sv.empty()) {
      if (!z.empty())
        z += ' ';
      if (s.prefix)
        z += upper ? "0X" : "0x";
      auto k  = std::min(block, sv.size());
      z      += hex(sv.substr(0, k), upper);
      sv.remove_prefix(k);
    }
    return plain(s, z);
  }
  char buff[64];
  snprintf(buff, sizeof buff, "0x%zx@0x%zx", n, size_t(p));
  return plain(s, buff);
}

/// In numeric alignment what isn't numeric is left or right in the field, that isn't documented.
inline bool
same(Spec const &s, std::string const &got, std::string const &want, std::string const &text)
{
  if (got == want)
    return true;
  if (s.alignment() == '=') {
    for (char a : {'<', '>'})
      if (got == place(s, "", text, a))
        return true;
  }
  return false;
}
} // namespace ref

/// Print to destinations of various sizes, which must hold the same except for truncation. Return
/// the entire output.
template <typename F>
std::string
print_all(pbt::Src &g, F const &f)
{
  swoc::FixedBufferWriter measure{nullptr};
  f(measure);
  size_t n = measure.extent();
  REQ(n < (1u << 24), "output size is ", n);
  Exact e{std::string(n, '\x5A')};
  swoc::FixedBufferWriter w{e.p, n};
  f(w);
  REQ_EQ(w.extent(), n, "extent in an exact buffer");
  std::string all{std::string_view(w.view())};
  REQ_EQ(all.size(), n);
  size_t k = n ? (g.flip() ? n - 1 : g.draw(n - 1)) : 0; // clipped
  Exact e2{std::string(k, '\x5A')};
  swoc::FixedBufferWriter w2{e2.p, k};
  f(w2);
  REQ_EQ(w2.extent(), n, "extent in a buffer of size ", k);
  REQ_EQ(std::string(std::string_view(w2.view())), all.substr(0, k), "clipped output");
  if (g.chance(20)) { // clipped, after other content.
    std::string other(1 + g.small(30), '!');
    Exact e4{std::string(other.size() + k, '\x5A')};
    swoc::FixedBufferWriter w4{e4.p, e4.n};
    w4.write(other);
    f(w4);
    REQ_EQ(w4.extent(), other.size() + n, "extent in a partly filled buffer with space for ", k);
    REQ_EQ(std::string(std::string_view(w4.view())), other + all.substr(0, k), "clipped output in a partly filled buffer");
  }
  size_t extra = g.draw(40), pre = g.small(8); // roomy
  Exact e3{std::string(pre + n + extra, '\x5A')};
  swoc::FixedBufferWriter w3{e3.p, e3.n};
  w3.write(std::string(pre, '!'));
  f(w3);
  REQ_EQ(w3.extent(), n + pre, "extent in a large buffer");
  REQ_EQ(std::string(std::string_view(w3.view())), std::string(pre, '!') + all, "output in a large buffer");
  return all;
}

/// Format @a v with the single specifier @a fmt. Doing that without @c print, for which the field
/// width and limit are applied by the formatter or not at all, must differ only in those.
template <typename V>
std::string
render(pbt::Src &g, std::string const &fmt, V const &v)
{
  Exact e{fmt};
  std::string all;
  if (g.chance(30)) {
    swoc::bwf::Format f{swoc::TextView(e.view())};
    all = print_all(g, [&](swoc::BufferWriter &w) { w.print(f, v); });
  } else {
    all = print_all(g, [&](swoc::BufferWriter &w) { w.print(swoc::TextView(e.view()), v); });
  }
  if (g.chance(20)) {
    REQ(fmt.size() >= 2 && fmt.front() == '{' && fmt.back() == '}');
    swoc::bwf::Spec spec{swoc::TextView(e.p + 1, e.n - 2)};
    auto direct = print_all(g, [&](swoc::BufferWriter &w) { w.format(spec, v); });
    using Align = swoc::bwf::Spec::Align;
    auto place  = [&](Align align) {
      std::string z = direct;
      if (z.size() < spec._min) {
        size_t n = spec._min - z.size(), left = align == Align::RIGHT ? n : align == Align::CENTER ? n / 2 : 0;
        z        = std::string(left, spec._fill) + z + std::string(n - left, spec._fill);
      }
      return z.substr(0, spec._max);
    };
    bool ok = all == place(spec._align) || (spec._align == Align::SIGN && all == place(Align::RIGHT));
    REQ(ok, "format without print has ", pbt::esc(direct), " with print ", pbt::esc(all));
  }
  return all;
}
