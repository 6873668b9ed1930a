// T03 - text to integer conversion agrees with arithmetic on every text and radix.
#include "util.h"
#include "swoc/TextView.h"
using swoc::TextView;
using pbt::Src;

namespace
{
using u128                = unsigned __int128;
constexpr uintmax_t UMAX  = std::numeric_limits<uintmax_t>::max();
int
digit(char c)
{
  if (c >= '0' && c <= '9')
    return c - '0';
  if (c >= 'a' && c <= 'z')
    return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z')
    return c - 'A' + 10;
  return 99;
}
bool
space(char c)
{
  return c == ' ' || (c >= 9 && c <= 13);
}
// maximal digit run
uintmax_t
model(std::string_view s, int base, size_t &n)
{
  uintmax_t v = 0;
  bool over   = false;
  for (n = 0; n < s.size() && digit(s[n]) < base; ++n) {
    u128 x = u128(v) * base + digit(s[n]);
    if (x > UMAX)
      over = true;
    v = uintmax_t(x);
  }
  return over ? UMAX : v;
}
template <int N>
uintmax_t
sr(TextView &t)
{
  return swoc::svto_radix<N>(t);
}
template <int... N>
constexpr auto
table(std::integer_sequence<int, N...>)
{
  return std::array<uintmax_t (*)(TextView &), sizeof...(N)>{&sr<N + 1>...};
}
auto const RADIX = table(std::make_integer_sequence<int, 36>());

std::string
to_text(Src &g, uintmax_t v, int base)
{
  std::string s;
  if (base < 2)
    return std::string(g.draw(4), '0');
  do {
    int d = v % base;
    s     = char(d < 10 ? '0' + d : (g.flip() ? 'a' : 'A') + d - 10) + s;
    v /= base;
  } while (v);
  return s;
}
std::string
digits(Src &g, int base)
{
  switch (g.range(0, 5)) {
  case 0:
    return to_text(g, g.edgy(), base);
  case 1: { // around the limits, with tweaks of the tail
    auto s = to_text(g, g.pick({UMAX, UMAX - 1, UMAX / 2, UMAX / 2 + 1, UMAX / 2 - 1, UMAX / 2 + 2}), base);
    if (g.chance(30))
      s += "0123456789abcdefghijklmnopqrstuvwxyz"[g.draw(35)];
    if (g.chance(30) && !s.empty())
      s.back() = "0123456789abcdefghijklmnopqrstuvwxyz"[g.draw(35)];
    return s;
  }
  case 2:
    return std::string(g.draw(30), '0') + to_text(g, g.edgy(), base);
  case 3:
    return g.str("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", 80, 12);
  case 4:
    return "";
  default: {
    std::string s, al = std::string("0123456789abcdefghijklmnopqrstuvwxyz").substr(0, std::max(1, base));
    return g.str(al, 90, 20);
  }
  }
}
std::string
tail(Src &g)
{
  return g.chance(50) ? "" : g.bytes(6, 3);
}
} // namespace

PROPERTY(radix, 4, "at least 2 digits")
{
  g.scaled();
  g.huge();
  int base      = g.range(1, 36);
  std::string s = digits(g, base) + tail(g);
  g.note("radix ", base, " \"", pbt::esc(s), "\"");
  Exact mem(s);
  TextView t(mem.view());
  size_t n;
  auto want = model(s, base, n);
  auto got  = RADIX[base - 1](t);
  REQ_EQ(got, want, "radix ", base, " of \"", pbt::esc(s), "\"");
  REQ_EQ(t.size(), s.size() - n, "what is left");
  REQ(t.data() == mem.p + n);
  g.label("overflow", want == UMAX);
  g.nontrivial(n >= 2);
}

PROPERTY(svtou_svtoi, 8, "at least 2 digits")
{
  g.scaled();
  g.huge();
  // base 0 : by prefix.
  int base = g.chance(40) ? 0 : g.range(1, 36);
  if (g.chance(3))
    base = g.pick({-1, 37, 100, -16});
  int eff = base;
  std::string prefix;
  if (base == 0) {
    switch (g.range(0, 5)) {
    case 0:
      eff = 10;
      break;
    case 1:
      prefix = "0x", eff = 16;
      break;
    case 2:
      prefix = "0X", eff = 16;
      break;
    case 3:
      prefix = "0b", eff = 2;
      break;
    case 4:
      prefix = "0B", eff = 2;
      break;
    case 5:
      prefix = "0", eff = 8;
      break;
    }
  }
  std::string ws   = g.chance(30) ? g.str(" \t\n\r\v\f", 3, 2) : "";
  std::string sign = g.chance(40) ? g.pick({std::string("-"), std::string("+")}) : "";
  std::string body = prefix + digits(g, std::max(1, eff)) + tail(g);
  // white space after a sign is not in the domain.
  if (!sign.empty() && !body.empty() && space(body[0]))
    body.erase(0, body.find_first_not_of(" \t\n\r\v\f") == std::string::npos ? body.size() : body.find_first_not_of(" \t\n\r\v\f"));
  // model for the unsigned part
  auto magnitude = [&](std::string_view b, size_t &n) -> uintmax_t {
    int e    = base;
    size_t k = 0;
    if (base == 0) {
      e = 10;
      if (!b.empty() && b[0] == '0') {
        k = 1, e = 8;
        if (b.size() > 1 && (b[1] == 'x' || b[1] == 'X'))
          k = 2, e = 16;
        else if (b.size() > 1 && (b[1] == 'b' || b[1] == 'B'))
          k = 2, e = 2;
      }
    }
    if (e < 1 || e > 36) {
      n = 0;
      return 0;
    }
    auto v = model(b.substr(k), e, n);
    n     += k;
    return v;
  };
  auto strip = [](std::string_view b) {
    while (!b.empty() && space(b[0]))
      b.remove_prefix(1);
    return b;
  };
  bool stale    = g.flip();
  // --- unsigned
  {
    std::string s = ws + body;
    Exact mem(s);
    TextView parsed = stale ? TextView("stale") : TextView{};
    auto got        = swoc::svtou(mem.view(), &parsed, base);
    auto b          = strip(s);
    size_t n;
    auto want = magnitude(b, n);
    g.note("svtou base ", base, " \"", pbt::esc(s), "\" -> ", got, " parsed \"", pbt::esc(parsed), "\"");
    REQ_EQ(got, want, "svtou base ", base, " of \"", pbt::esc(s), "\"");
    REQ_EQ(parsed.size(), n, "svtou parsed, base ", base, " of \"", pbt::esc(s), "\"");
    if (n)
      REQ(parsed.data() == mem.p + (s.size() - b.size()), "svtou parsed location");
    REQ_EQ(swoc::svtou(mem.view(), nullptr, base), want);
    if (base == 0)
      REQ_EQ(swoc::svtou(mem.view()), want);
    g.nontrivial(n >= 2);
  }
  // --- signed
  {
    std::string s = ws + sign + body;
    Exact mem(s);
    TextView parsed = stale ? TextView("stale") : TextView{};
    auto got        = swoc::svtoi(mem.view(), &parsed, base);
    auto lead       = strip(s);
    auto b          = lead;
    bool neg        = false;
    if (!b.empty() && (b[0] == '-' || b[0] == '+')) {
      neg = b[0] == '-';
      b.remove_prefix(1);
    }
    size_t n;
    auto m = magnitude(b, n);
    if (!b.empty() && space(b[0]))
      g.discard();
    intmax_t want;
    if (neg)
      want = m > uintmax_t(1) << 63 ? std::numeric_limits<intmax_t>::min() : intmax_t(0 - m);
    else
      want = m > UMAX / 2 ? std::numeric_limits<intmax_t>::max() : intmax_t(m);
    g.note("svtoi base ", base, " \"", pbt::esc(s), "\" -> ", got, " parsed \"", pbt::esc(parsed), "\"");
    REQ_EQ(got, n ? want : 0, "svtoi base ", base, " of \"", pbt::esc(s), "\"");
    size_t len = n ? n + (lead.size() - b.size()) : 0;
    REQ_EQ(parsed.size(), len, "svtoi parsed, base ", base, " of \"", pbt::esc(s), "\"");
    if (len)
      REQ(parsed.data() == mem.p + (s.size() - lead.size()), "svtoi parsed location");
    REQ_EQ(swoc::svtoi(mem.view(), nullptr, base), n ? want : 0);
    g.label("negative", neg);
    g.label("clamped", n && m > UMAX / 2);
  }
}

// Printing then parsing is the identity.
PROPERTY(round_trip, 3, "more than one digit")
{
  g.scaled();
  g.huge();
  auto v        = g.edgy();
  int base      = g.range(2, 36);
  std::string s = to_text(g, v, base);
  g.note(v, " in base ", base, " \"", s, "\"");
  TextView parsed;
  REQ_EQ(swoc::svtou(s, &parsed, base), v);
  REQ_EQ(parsed.size(), s.size());
  int64_t iv    = int64_t(v);
  std::string t = (iv < 0 ? "-" : "") + to_text(g, iv < 0 ? 0 - uintmax_t(iv) : uintmax_t(iv), base);
  REQ_EQ(swoc::svtoi(t, &parsed, base), intmax_t(iv), t);
  REQ_EQ(parsed.size(), t.size());
  g.nontrivial(s.size() > 1);
}
