// N02 - address text.
#include "ip_util.h"
#include <optional>
using pbt::Src;
using namespace swoc;

namespace
{
std::string
trim(std::string s)
{
  while (!s.empty() && isspace((unsigned char)s.front()))
    s.erase(0, 1);
  while (!s.empty() && isspace((unsigned char)s.back()))
    s.pop_back();
  return s;
}
std::vector<std::string>
split(std::string const &s, char c)
{
  std::vector<std::string> v{{}};
  for (char x : s) {
    if (x == c)
      v.emplace_back();
    else
      v.back() += x;
  }
  return v;
}
/// Number as in C, without sign.
std::optional<u128>
number(std::string const &s)
{
  unsigned radix = 10;
  size_t i       = 0;
  if (s.size() > 1 && s[0] == '0') {
    if (s[1] == 'x' || s[1] == 'X') {
      radix = 16;
      i     = 2;
    } else {
      radix = 8;
      i     = 1;
    }
  }
  if (i >= s.size())
    return {};
  u128 v = 0;
  for (; i < s.size(); ++i) {
    unsigned d = isdigit((unsigned char)s[i]) ? s[i] - '0' : isxdigit((unsigned char)s[i]) ? tolower(s[i]) - 'a' + 10 : 99;
    if (d >= radix)
      return {};
    if (v < (u128(1) << 100))
      v = v * radix + d;
  }
  return v;
}
/// 1 to 4 parts, the last one being the rest of the address.
std::optional<u128>
ref4(std::string const &text)
{
  auto parts = split(trim(text), '.');
  if (parts.size() > 4)
    return {};
  u128 v = 0;
  for (size_t i = 0; i < parts.size(); ++i) {
    auto n = number(parts[i]);
    if (!n)
      return {};
    if (i + 1 < parts.size()) {
      if (*n > 255)
        return {};
      v |= *n << (24 - 8 * i);
    } else {
      if (*n >> (32 - 8 * i))
        return {};
      v |= *n;
    }
  }
  return v;
}
/// Without the embedded IPv4 form, which isn't supported.
std::optional<u128>
ref6(std::string const &text)
{
  std::string s = trim(text);
  if (!s.empty() && s.front() == '[') {
    if (s.size() < 2 || s.back() != ']')
      return {};
    s = s.substr(1, s.size() - 2);
  }
  in6_addr a;
  if (s.find('.') != s.npos || s.find('\0') != s.npos || 1 != inet_pton(AF_INET6, s.c_str(), &a))
    return {};
  return val(a);
}
std::string
digits(Src &g, uint64_t v, unsigned radix)
{
  char buff[80];
  if (radix == 10)
    snprintf(buff, sizeof buff, "%llu", (unsigned long long)v);
  else if (radix == 8)
    snprintf(buff, sizeof buff, "0%llo", (unsigned long long)v);
  else
    snprintf(buff, sizeof buff, g.flip() ? "0x%llx" : "0X%llX", (unsigned long long)v);
  return buff;
}
/// Text which is close to or is an address.
std::string
gen4(Src &g)
{
  unsigned n = g.weighted({6, 1, 1, 1, 1});
  n          = n == 0 ? 4 : n == 4 ? 5 : n;
  std::string s;
  for (unsigned i = 0; i < n; ++i) {
    if (i)
      s += '.';
    uint64_t limit = i + 1 < n || n > 4 ? 255 : (uint64_t(1) << (8 * (5 - n))) - 1;
    uint64_t v     = 0;
    switch (g.weighted({5, 3, 2, 1})) {
    case 0:
      v = g.draw(std::min<uint64_t>(limit, 255));
      break;
    case 1:
      v = g.draw(limit);
      break;
    case 2:
      v = limit + g.draw(3) - 2;
      break;
    case 3:
      v = g.edgy();
      break;
    }
    unsigned radix = g.weighted({8, 2, 2});
    s += digits(g, v, radix == 0 ? 10 : radix == 1 ? 8 : 16);
  }
  return s;
}
std::string
gen6(Src &g)
{
  unsigned n   = g.weighted({2, 4, 1});
  n            = n == 0 ? 8 : n == 1 ? unsigned(g.draw(7)) : unsigned(g.draw(10));
  int gap      = n == 8 && g.chance(90) ? -1 : g.chance(90) ? int(g.draw(n)) : -1;
  std::string s;
  for (unsigned i = 0; i <= n; ++i) {
    if (int(i) == gap)
      s += "::";
    else if (i && i < n)
      s += ':';
    if (i == n)
      break;
    char buff[24];
    unsigned long v = g.weighted({3, 3, 1}) == 0 ? g.draw(0xffff) : g.small(20);
    if (g.chance(2))
      v = 0x10000 + g.draw(30);
    snprintf(buff, sizeof buff, g.pick({"%lx", "%lX", "%04lx", "%02lX"}), v);
    s += buff;
  }
  if (g.chance(15))
    s = '[' + s + ']';
  return s;
}
/// A few edits
void
mutate(Src &g, std::string &s, std::string_view alphabet)
{
  for (unsigned i = 0; g.more(1, i, 3); ++i) {
    size_t at = g.draw(s.size());
    switch (g.draw(3)) {
    case 0:
      s.insert(at, 1, alphabet[g.draw(alphabet.size() - 1)]);
      break;
    case 1:
      if (at < s.size())
        s.erase(at, 1);
      break;
    case 2:
      if (at < s.size())
        s[at] = alphabet[g.draw(alphabet.size() - 1)];
      break;
    case 3: // repeat a part
      s.insert(at, s.substr(at / 2, g.draw(4)));
      break;
    }
  }
}
void
pad(Src &g, std::string &s)
{
  if (g.chance(15))
    s = g.str(" \t\n\r", 3) + s;
  if (g.chance(15))
    s += g.str(" \t\n\r", 3);
}
/// Longer than 4 digits because of leading zeros - library and standard differ, neither documented.
bool
long_quad(std::string const &s)
{
  size_t run = 0;
  for (size_t i = 0; i <= s.size(); ++i) {
    if (i < s.size() && isxdigit((unsigned char)s[i]))
      ++run;
    else {
      if (run > 4 && s[i - run] == '0')
        return true;
      run = 0;
    }
  }
  return false;
}
char const ALPHA4[] = "0123456789.xX:-/ ,afFgz[]\0\xff";
char const ALPHA6[] = "0123456789abcdefABCDEF::::xg.-+/%[] \0\xff";
} // namespace

PROPERTY(parse4, 3, "accepted, or rejected after changing valid text")
{
  g.huge();
  std::string s;
  bool changed = false;
  if (g.chance(85)) {
    s = gen4(g);
    if (g.chance(40)) {
      std::string t = s;
      mutate(g, s, {ALPHA4, sizeof ALPHA4 - 1});
      changed = s != t;
    }
  } else {
    s = g.str("0123456789..x", 20);
  }
  pad(g, s);
  g.note("text ", pbt::esc(s));
  std::string core = trim(s);
  if (core.find('[') != s.npos || core.find(']') != s.npos)
    g.discard();
  for (auto const &p : split(core, '.')) {
    if (p == "0x" || p == "0X" || (p.size() > 1 && p[0] == '0' && tolower(p[1]) == 'b')) // not documented for addresses.
      g.discard();
    for (char c : p)
      if (isspace((unsigned char)c))
        g.discard();
  }
  auto want = ref4(s);
  g.nontrivial(want || changed);
  Exact x(s);
  IP4Addr a{uint32_t(g.draw(3) * 0x55555555u)};
  bool r = a.load(x.view());
  REQ_EQ(r, bool(want), "load of \"", pbt::esc(s), "\"");
  REQ_EQ(val(a), want ? *want : 0, "value for \"", pbt::esc(s), "\"");
  REQ_EQ(val(IP4Addr(x.view())), want ? *want : 0, "construct from \"", pbt::esc(s), "\"");
  in_addr ia;
  if (core.find('\0') == core.npos && core.find(' ') == core.npos) {
    bool sys = 0 != inet_aton(core.c_str(), &ia);
    if (sys)
      REQ(!want || *want == ntohl(ia.s_addr), "system library agrees");
    if (want)
      REQ(sys, "system library accepts");
  }
  // Generic
  auto parts = split(core, '.');
  if (parts.size() > 1 && parts[0].size() <= 4 && core.find(':') == core.npos) {
    IPAddr y = mk(gen_any(g));
    REQ_EQ(y.load(x.view()), bool(want), "generic load");
    REQ(val(y) == (want ? Any{4, *want} : Any{}), "generic value");
    REQ(val(IPAddr(x.view())) == (want ? Any{4, *want} : Any{}), "generic construct");
  } else if (parts.size() == 1 && core.find(':') == core.npos) {
    IPAddr y;
    if (y.load(x.view())) // not required, but if so it's to be right.
      REQ(want && val(y) == (Any{4, *want}), "generic value of a number");
  }
  // Not the other family.
  if (want) {
    IP6Addr z;
    if (core.find('.') != core.npos)
      REQ(!z.load(x.view()), "IPv4 text loaded as IPv6");
  }
  g.label("accepted", bool(want));
  g.label("octal or hex", want && (core.find('x') != core.npos || core[0] == '0'));
  g.label("short form", want && parts.size() < 4);
}

PROPERTY(parse6, 4, "accepted, or rejected after changing valid text")
{
  g.huge();
  std::string s;
  bool changed = false;
  if (g.chance(85)) {
    s = gen6(g);
    if (g.chance(40)) {
      std::string t = s;
      mutate(g, s, {ALPHA6, sizeof ALPHA6 - 1});
      changed = s != t;
    }
  } else {
    s = g.str("0123456789abcdef::::", 45, 12);
  }
  pad(g, s);
  g.note("text ", pbt::esc(s));
  std::string core = trim(s);
  for (char c : core)
    if (isspace((unsigned char)c))
      g.discard();
  if (core.size() > 1 && core[0] == '[' && isspace((unsigned char)core[1]))
    g.discard();
  auto want = ref6(s);
  if (!want && long_quad(core)) // leading zeros
    g.discard();
  g.nontrivial(want || changed);
  Exact x(s);
  IP6Addr a{ip6(g.flip() ? MAX128 / 3 : 0)};
  bool r = a.load(x.view());
  REQ_EQ(r, bool(want), "load of \"", pbt::esc(s), "\"");
  REQ_EQ(val(a), want ? *want : 0, "value for \"", pbt::esc(s), "\"");
  REQ_EQ(val(IP6Addr(x.view())), want ? *want : 0, "construct from \"", pbt::esc(s), "\"");
  if (want || core.substr(0, 5).find('.') == core.npos) {
    IPAddr y = mk(gen_any(g));
    REQ_EQ(y.load(x.view()), bool(want), "generic load");
    REQ(val(y) == (want ? Any{6, *want} : Any{}), "generic value");
    REQ(val(IPAddr(x.view())) == (want ? Any{6, *want} : Any{}), "generic construct");
  }
  if (want) {
    IP4Addr z;
    REQ(!z.load(x.view()), "IPv6 text loaded as IPv4");
  }
  g.label("accepted", bool(want));
  g.label("compressed", want && core.find("::") != core.npos);
  g.label("bracketed", want && core[0] == '[');
}

// printing
namespace
{
std::string
octet(unsigned v, char type, bool prefix, unsigned min, char fill)
{
  char buff[32];
  snprintf(buff, sizeof buff, type == 'o' ? "%o" : type == 'x' ? "%x" : type == 'X' ? "%X" : "%u", v);
  std::string s = buff;
  if (prefix && (type == 'x' || type == 'X'))
    s = std::string("0") + type + s;
  else if (prefix && type == 'o')
    s = "0" + s;
  while (s.size() < min)
    s.insert(s.begin(), fill);
  return s;
}
std::string
ref_print6(u128 v, bool compress, bool upper, unsigned min, char fill)
{
  unsigned q[8];
  for (int i = 7; i >= 0; --i, v >>= 16)
    q[i] = unsigned(v & 0xffff);
  int best = -1, best_n = 1;
  for (int i = 0; compress && i < 8; ++i) {
    int n = 0;
    while (i + n < 8 && q[i + n] == 0)
      ++n;
    if (n > best_n) {
      best   = i;
      best_n = n;
    }
  }
  std::string s;
  for (int i = 0; i < 8;) {
    if (i == best) {
      s += "::";
      i += best_n;
      continue;
    }
    if (i && s.back() != ':')
      s += ':';
    s += octet(q[i], upper ? 'X' : 'x', false, min, fill);
    ++i;
  }
  return s;
}
std::string
align(std::string s, char how, unsigned width, char fill)
{
  while (s.size() < width) {
    bool front = how == '>' || (how == '=');
    if (front)
      s.insert(s.begin(), fill);
    else
      s += fill;
  }
  return s;
}
} // namespace

PROPERTY(print4, 2, "more than one distinct octet")
{
  u128 v    = gen_value(g, 4);
  IP4Addr a = ip4(v);
  unsigned o[4];
  for (int i = 0; i < 4; ++i)
    o[i] = unsigned(v >> (24 - 8 * i)) & 255;
  g.nontrivial(o[0] != o[1] || o[2] != o[3]);
  REQ_EQ(print("{}", a), text(4, v), "default text");
  REQ_EQ(print("{}", IPAddr(a)), text(4, v), "default generic text");
  std::ostringstream os;
  os << a << '|' << IPAddr(a);
  REQ_EQ(os.str(), text(4, v) + '|' + text(4, v), "ostream");
  char type   = g.pick({'d', 'x', 'X', 'o', '\0'});
  bool prefix = (type == 'x' || type == 'X' || type == 'o') && g.flip();
  int eq      = int(g.weighted({3, 1, 1}));
  char fill   = g.pick({'0', ' ', '_', '.', 'Q'});
  unsigned wd = g.chance(40) ? unsigned(g.draw(40)) : 0;
  char how    = g.pick({'<', '>'});
  std::string f = "{:";
  if (wd)
    f += how;
  if (prefix)
    f += '#';
  if (wd)
    f += std::to_string(wd);
  if (type)
    f += type;
  if (eq == 1)
    f += ":=";
  else if (eq == 2)
    f += std::string(":") + fill + "=";
  f += "}";
  if (eq < 2)
    fill = '0';
  std::string want;
  for (int i = 0; i < 4; ++i)
    want += (i ? "." : "") + octet(o[i], type, prefix && eq == 0, eq ? 3 : 0, fill);
  if (prefix && eq) // padded prefix isn't documented.
    g.discard();
  g.note("v ", show(v), " format ", f);
  want = align(want, how, wd, ' ');
  REQ_EQ(print(f, a), want, "format ", f);
  REQ_EQ(print(f, IPAddr(a)), want, "generic format ", f);
  // Loads as the same address
  if (eq == 0 && ((type == 0 || type == 'd') || prefix)) {
    IP4Addr b;
    REQ(b.load(print(f, a)) && b == a, "parse of ", print(f, a));
  }
  IPAddr c;
  REQ(c.load(print("{}", a)) && val(c) == (Any{4, v}), "generic parse of ", print("{}", a));
  // family extension.
  REQ_EQ(print("{::f}", IPAddr(a)), std::string("ipv4"), "family");
  REQ_EQ(print("{::fa}", IPAddr(a)), text(4, v) + " ipv4", "address and family");
  REQ_EQ(print("{::a}", IPAddr(a)), text(4, v), "address only");
  REQ_EQ(print("{:d:f}", IPAddr(a)), std::to_string(AF_INET), "numeric family");
  // What isn't an address doesn't print as one.
  REQ(!IPAddr().load(print("{}", IPAddr{})), "text of an invalid address is valid");
  REQ(!IPNet().load(print("{}", IPNet{})), "text of an invalid network is valid");
  REQ(!IPRange().load(print("{}", IPRange{})), "text of an invalid range is valid");
}

PROPERTY(print6, 4, "has a run of zero quads and something else")
{
  u128 v = gen_value(g, 6);
  if (g.flip()) { // quads which are zero or not.
    v = 0;
    for (int i = 0; i < 8; ++i)
      v = v << 16 | (g.flip() ? 0u : g.flip() ? unsigned(g.draw(15)) : unsigned(g.draw(0xffff)));
  }
  IP6Addr a     = ip6(v);
  std::string s = ref_print6(v, true, false, 0, '0');
  g.note("v ", show(v));
  g.nontrivial(s.find("::") != s.npos && s.size() > 2);
  g.label("two runs", [&] {
    int runs = 0;
    bool in  = false;
    for (int i = 7; i >= 0; --i) {
      bool z = !(v >> (16 * i) & 0xffff);
      runs += z && !in;
      in = z;
    }
    return runs > 1;
  }());
  REQ_EQ(s, text(6, v), "harness reference differs from the system");
  REQ_EQ(print("{}", a), s, "default text");
  REQ_EQ(print("{}", IPAddr(a)), s, "generic text");
  REQ_EQ(print("{}", raw6(v)), s, "raw address text");
  std::ostringstream os;
  os << a << '|' << IPAddr(a);
  REQ_EQ(os.str(), s + '|' + s, "ostream");

  bool upper  = g.flip();
  int eq      = int(g.weighted({3, 1, 1}));
  char fill   = g.pick({'0', ' ', '_', '.', 'Q'});
  unsigned wd = g.chance(40) ? unsigned(g.draw(60)) : 0;
  char how    = g.pick({'<', '>'});
  std::string f = "{:";
  if (wd)
    f += how + std::to_string(wd);
  f += upper ? "X" : g.flip() ? "x" : "";
  if (eq == 1)
    f += ":=";
  else if (eq == 2)
    f += std::string(":") + fill + "=";
  f += "}";
  if (eq < 2)
    fill = '0';
  g.note("format ", f);
  std::string want = align(ref_print6(v, eq == 0, upper, eq ? 4 : 0, fill), how, wd, ' ');
  REQ_EQ(print(f, a), want, "format ", f);
  REQ_EQ(print(f, IPAddr(a)), want, "generic format ", f);
  // same address again.
  if (fill == '0') {
    IP6Addr b;
    REQ(b.load(want) && b == a, "parse of ", want);
    IPAddr c;
    REQ(c.load(want) && val(c) == (Any{6, v}), "generic parse of ", want);
    REQ(b.load("[" + s + "]") && b == a, "parse in brackets");
  }
  REQ_EQ(print("{::f}", IPAddr(a)), std::string("ipv6"), "family");
  REQ_EQ(print("{::af}", IPAddr(a)), s + " ipv6", "address and family");
  REQ_EQ(print("{:d:f}", IPAddr(a)), std::to_string(AF_INET6), "numeric family");
}

// Every way of writing the same address is the same address.
PROPERTY(forms, 2, "two different spellings")
{
  u128 v = gen_value(g, 6);
  if (g.flip())
    v &= u128(g.draw(0xffff)) << 112 | u128(g.draw(0xffff)) << 48 | g.draw(0xffff);
  auto spell = [&] {
    // any run of zeros may be elided, leading zeros are optional, case doesn't matter.
    unsigned q[8];
    u128 x = v;
    for (int i = 7; i >= 0; --i, x >>= 16)
      q[i] = unsigned(x & 0xffff);
    int at = int(g.draw(7)), n = 0;
    if (q[at] == 0 && g.chance(80)) {
      n = 1;
      while (at + n < 8 && q[at + n] == 0 && g.chance(80))
        ++n;
    }
    std::string s;
    for (int i = 0; i < 8;) {
      if (n && i == at) {
        s += "::";
        i += n;
        continue;
      }
      if (i && s.back() != ':')
        s += ':';
      char buff[16];
      snprintf(buff, sizeof buff, g.pick({"%x", "%X", "%04x", "%03X"}), q[i]);
      s += buff;
      ++i;
    }
    return g.chance(10) ? "[" + s + "]" : s;
  };
  std::string s1 = spell(), s2 = spell();
  g.note(s1, " ", s2);
  g.nontrivial(s1 != s2);
  IP6Addr a, b;
  REQ(a.load(s1) && val(a) == v, "spelling ", s1);
  REQ(b.load(s2) && b == a, "spelling ", s2);
}
