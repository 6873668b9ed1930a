// B08 - formatting of IP data: every style, extension and field over every type.
#include "bwf_util.h"
#include "ip_util.h"
#include <netinet/in.h>
#include <sstream>
using swoc::BufferWriter;
using swoc::IPAddr;
using swoc::IPEndpoint;
using swoc::IPMask;
using swoc::IPNet;
using swoc::IPRange;
using swoc::IPRangeView;
using swoc::IPSrv;
using pbt::Src;

namespace
{
/// The format of the elements of IP data.
struct Elts {
  char type    = 0;     ///< type from the style.
  bool prefix  = false; ///< radix prefix
  int fill     = -1;    ///< fill for justified elements.

  std::string
  num(unsigned v, unsigned min) const
  {
    std::string s, lead;
    switch (type) {
    case 'x':
      s    = ref::radix(v, 16, false);
      lead = "0x";
      break;
    case 'X':
      s    = ref::radix(v, 16, true);
      lead = "0X";
      break;
    case 'o':
      s    = ref::radix(v, 8, false);
      lead = "0";
      break;
    case 'b':
      s    = ref::radix(v, 2, false);
      lead = "0b";
      break;
    case 'B':
      s    = ref::radix(v, 2, true);
      lead = "0B";
      break;
    default:
      s = std::to_string(v);
      break;
    }
    if (prefix)
      s = lead + s;
    if (fill >= 0)
      while (s.size() < min)
        s.insert(s.begin(), char(fill));
    return s;
  }

  std::string
  addr(int f, u128 v) const
  {
    std::string s;
    if (f == 4) {
      for (int i = 3; i >= 0; --i)
        s += num(unsigned(v >> (8 * i)) & 255, 3) + (i ? "." : "");
      return s;
    }
    unsigned q[8];
    for (int i = 7; i >= 0; --i, v >>= 16)
      q[i] = unsigned(v & 0xffff);
    Elts e{*this};
    if (type == 0 || type == 'g' || type == 's' || type == 'S')
      e.type = 'x';
    int best = -1, best_n = 1;
    for (int i = 0; fill < 0 && i < 8; ++i) {
      int n = 0;
      while (i + n < 8 && q[i + n] == 0)
        ++n;
      if (n > best_n) {
        best   = i;
        best_n = n;
      }
    }
    for (int i = 0; i < 8;) {
      if (i == best) {
        s += "::";
        i += best_n;
        continue;
      }
      if (i && i != best + best_n)
        s += ':';
      s += e.num(q[i], 4);
      ++i;
    }
    return s;
  }

  std::string
  family(int f) const
  {
    if (type && std::string_view("dxXobB").find(type) != std::string_view::npos)
      return Elts{type, prefix}.num(f == 4 ? AF_INET : AF_INET6, 0);
    return f == 4 ? type == 'S' ? "IPV4" : "ipv4" : type == 'S' ? "IPV6" : "ipv6";
  }
};

struct Style {
  ref::Spec spec;
  Elts elts;
  std::string fmt;
  std::string parts; ///< extension without the justification.

  /// @a codes are the extension letters to choose from.
  Style(Src &g, std::string_view codes)
  {
    if (!g.chance(15)) {
      spec      = ref::gen_spec(g, "gsSdxXobB");
      spec.sign = 0;
      spec.prec = -1;
      if (spec.alignment() == '=') // about numbers.
        spec.align = '>';
      if (spec.max >= 0 && size_t(spec.max) < spec.min) // not defined which is first.
        spec.max = -1;
    }
    elts.type = spec.type;
    std::string ext;
    if (g.chance(45)) { // justified elements
      if (g.flip()) {
        elts.fill = '0';
      } else {
        elts.fill = "0 *_.xX"[g.draw(6)];
        ext       = char(elts.fill);
      }
      ext += '=';
      spec.prefix = false; // not documented which is first.
    }
    elts.prefix = spec.prefix;
    if (!codes.empty() && g.chance(60))
      while (g.more(1, unsigned(parts.size()), 5))
        parts += codes[g.draw(codes.size() - 1)];
    ext          += parts;
    spec.ext      = ext;
    spec.has_ext  = !ext.empty();
    fmt           = "{" + ref::text(g, spec) + "}";
  }
  bool
  has(char c) const
  {
    return parts.find(c) != parts.npos || parts.find(char(toupper(c))) != parts.npos;
  }
};

template <typename V>
void
same(Src &g, Style const &s, std::string const &want, V const &v, char const *what)
{
  auto got = render(g, s.fmt, v);
  REQ(got == ref::plain(s.spec, want), what, " format ", pbt::esc(s.fmt), " got ", pbt::esc(got), " expected ",
      pbt::esc(ref::plain(s.spec, want)));
}

/// Values with zero quads, more than at random.
u128
gen(Src &g, int f)
{
  u128 v = gen_value(g, f);
  if (f == 6 && g.flip()) {
    v = 0;
    for (int i = 0; i < 8; ++i)
      v = v << 16 | (g.flip() ? 0u : g.flip() ? unsigned(g.draw(15)) : unsigned(g.draw(0xffff)));
  }
  return v;
}
} // namespace

PROPERTY(address, 4, "not the default format")
{
  int f = g.flip() ? 4 : 6;
  u128 v = gen(g, f);
  Style s{g, "aAfF"};
  g.note("address ", show(v), " format ", pbt::esc(s.fmt));
  std::string want = s.elts.addr(f, v), generic = want;
  if (!s.parts.empty()) {
    generic = s.has('a') ? want : "";
    if (s.has('f'))
      generic += (s.has('a') ? " " : "") + s.elts.family(f);
  }
  same(g, s, generic, mk({f, v}), "address");
  if (f == 4)
    same(g, s, want, ip4(v), "IPv4 address");
  else if (g.flip())
    same(g, s, want, ip6(v), "IPv6 address");
  else
    same(g, s, want, raw6(v), "raw IPv6 address");
  g.label("justified", s.elts.fill >= 0);
  g.nontrivial(!s.spec.empty());
}

PROPERTY(endpoint, 4, "not the default format")
{
  int f          = g.flip() ? 4 : 6;
  u128 v         = gen(g, f);
  in_port_t port = in_port_t(g.chance(30) ? g.small(1000) : g.draw(0xFFFF));
  Style s{g, "aApPfF"};
  g.note("address ", show(v), " port ", port, " format ", pbt::esc(s.fmt));
  bool a = s.parts.empty() || s.has('a'), p = s.parts.empty() || s.has('p');
  std::string addr = s.elts.addr(f, v), want;
  if (a)
    want += f == 6 && p ? "[" + addr + "]" : addr;
  if (a && p)
    want += ':';
  if (p)
    want += s.elts.num(port, 5);
  if (s.has('f'))
    want += (a || p ? " " : "") + s.elts.family(f);
  IPEndpoint ep;
  ep.assign(mk({f, v}), port);
  switch (g.draw(2)) {
  case 0:
    same(g, s, want, ep, "endpoint");
    break;
  case 1:
    same(g, s, want, static_cast<sockaddr const *>(&ep.sa), "socket address");
    break;
  case 2:
    if (f == 4)
      same(g, s, want, static_cast<sockaddr_in const *>(&ep.sa4), "IPv4 socket address");
    else
      same(g, s, want, static_cast<sockaddr_in6 const *>(&ep.sa6), "IPv6 socket address");
    break;
  }
  g.label("justified", s.elts.fill >= 0);
  g.label("family", s.has('f'));
  g.nontrivial(!s.spec.empty());
}

PROPERTY(service, 2, "not the default format")
{
  int f          = g.flip() ? 4 : 6;
  u128 v         = gen(g, f);
  in_port_t port = in_port_t(g.chance(30) ? 0 : g.draw(0xFFFF));
  Style s{g, ""};
  g.note("address ", show(v), " port ", port, " format ", pbt::esc(s.fmt));
  std::string want = s.elts.addr(f, v);
  if (port)
    want = (f == 6 ? "[" + want + "]:" : want + ":") + std::to_string(port);
  if (g.flip())
    same(g, s, want, IPSrv(mk({f, v}), port), "service");
  else if (f == 4)
    same(g, s, want, swoc::IP4Srv(ip4(v), port), "IPv4 service");
  else
    same(g, s, want, swoc::IP6Srv(ip6(v), port), "IPv6 service");
  g.nontrivial(!s.spec.empty());
}

PROPERTY(network, 3, "not the default format")
{
  int f      = g.flip() ? 4 : 6;
  unsigned w = unsigned(g.chance(30) ? g.pick({0u, width(f), width(f) - 1, 1u}) : g.draw(width(f)));
  u128 v     = gen(g, f) & mask_bits(w, width(f));
  Style s{g, ""};
  g.note("address ", show(v), " width ", w, " format ", pbt::esc(s.fmt));
  std::string want = s.elts.addr(f, v) + "/" + std::to_string(w);
  IPMask mask{IPMask::raw_type(w)};
  if (g.flip())
    same(g, s, want, IPNet(mk({f, v}), mask), "network");
  else if (f == 4)
    same(g, s, want, swoc::IP4Net(ip4(v), mask), "IPv4 network");
  else
    same(g, s, want, swoc::IP6Net(ip6(v), mask), "IPv6 network");
  if (g.chance(20)) {
    Style n{g, ""};
    n.spec.has_ext = false;
    if (n.spec.max < 0) { // a number, which has its own field.
      auto spec = n.spec;
      spec.ext.clear();
      std::string fmt = "{" + ref::text(g, spec) + "}";
      REQ_EQ(render(g, fmt, mask), ref::integer(spec, w), "mask format ", pbt::esc(fmt));
    }
  }
  g.nontrivial(!s.spec.empty());
}

template <int F>
void
range(Src &g)
{
  using T    = Fam<F>;
  u128 a     = gen(g, F), b;
  unsigned w = 0;
  bool net_p = false;
  switch (g.draw(3)) {
  case 0:
    b = a;
    break;
  case 1: // network
    w  = unsigned(g.draw(T::W));
    a &= mask_bits(w, T::W);
    b  = a | (T::MAX & ~mask_bits(w, T::W));
    break;
  case 2: // not quite
    w  = unsigned(g.draw(T::W));
    a &= mask_bits(w, T::W);
    b  = nearby(g, F, a | (T::MAX & ~mask_bits(w, T::W)));
    break;
  default:
    b = gen(g, F);
    break;
  }
  if (b < a)
    std::swap(a, b);
  for (w = 0; w < T::W; ++w) // is it a network?
    if ((a & mask_bits(w, T::W)) == a && b == (a | (T::MAX & ~mask_bits(w, T::W)))) {
      net_p = true;
      break;
    }
  Style s{g, "c"};
  g.note("range ", show(a), " ", show(b), " format ", pbt::esc(s.fmt));
  std::string want = s.elts.addr(F, a);
  if (s.has('c') && a == b)
    ;
  else if (s.has('c') && net_p)
    want += "/" + std::to_string(w);
  else
    want += "-" + s.elts.addr(F, b);
  typename T::Range r{T::make(a), T::make(b)};
  switch (g.draw(2)) {
  case 0:
    same(g, s, want, r, "range");
    break;
  case 1:
    same(g, s, want, IPRange(r), "generic range");
    break;
  case 2: {
    IPRangeView v;
    v.assign(r);
    same(g, s, want, v, "range view");
  } break;
  }
  if (g.chance(20)) {
    std::ostringstream os;
    if (g.flip())
      os << r;
    else
      os << IPRange(r);
    REQ_EQ(os.str(), text(F, a) + "-" + text(F, b), "stream");
  }
  g.label("compact", s.has('c') && (net_p || a == b));
  g.nontrivial(!s.spec.empty());
}

PROPERTY(range4, 2, "not the default format")
{
  range<4>(g);
}
PROPERTY(range6, 2, "not the default format")
{
  range<6>(g);
}
