// N08 - endpoints and services.
#include "ip_util.h"
#include <memory>
#include <optional>
using pbt::Src;
using namespace swoc;

namespace
{
/// Model of endpoint or service.
struct EP {
  Any a;
  uint16_t port = 0;
  bool operator==(EP const &x) const { return a == x.a && port == x.port; }
};
uint16_t
gen_port(Src &g)
{
  switch (g.draw(3)) {
  case 0:
    return uint16_t(g.draw(65535));
  case 1:
    return uint16_t(g.pick({0, 1, 80, 255, 256, 443, 8080, 32767, 32768, 65534, 65535}));
  case 2:
    return 0;
  default:
    return uint16_t(g.draw(300));
  }
}
EP
gen_ep(Src &g, bool invalid_p = true)
{
  EP e;
  e.a = gen_any(g, invalid_p);
  if (e.a.f && g.chance(20))
    e.a.v = gen_special(g, e.a.f);
  if (e.a.f)
    e.port = gen_port(g);
  return e;
}
/// Exactly sized.
struct Sock {
  std::unique_ptr<char[]> mem;
  size_t n = 0;
  sockaddr *
  sa() const
  {
    return reinterpret_cast<sockaddr *>(mem.get());
  }
  sockaddr_in *
  sa4() const
  {
    return reinterpret_cast<sockaddr_in *>(mem.get());
  }
  sockaddr_in6 *
  sa6() const
  {
    return reinterpret_cast<sockaddr_in6 *>(mem.get());
  }
};
Sock
sock(EP const &e, uint32_t flow = 0, uint32_t scope = 0)
{
  Sock s;
  s.n = e.a.f == 4 ? sizeof(sockaddr_in) : e.a.f == 6 ? sizeof(sockaddr_in6) : sizeof(sockaddr);
  s.mem.reset(new char[s.n]);
  memset(s.mem.get(), 0, s.n);
  if (e.a.f == 4) {
    s.sa4()->sin_family      = AF_INET;
    s.sa4()->sin_port        = htons(e.port);
    s.sa4()->sin_addr.s_addr = htonl(uint32_t(e.a.v));
  } else if (e.a.f == 6) {
    s.sa6()->sin6_family   = AF_INET6;
    s.sa6()->sin6_port     = htons(e.port);
    s.sa6()->sin6_addr     = raw6(e.a.v);
    s.sa6()->sin6_flowinfo = flow;
    s.sa6()->sin6_scope_id = scope;
  } else {
    s.sa()->sa_family = flow & 1 ? AF_UNIX : AF_UNSPEC;
  }
  return s;
}
EP
read(sockaddr const *sa)
{
  EP e;
  if (sa->sa_family == AF_INET) {
    auto *p = reinterpret_cast<sockaddr_in const *>(sa);
    e.a     = {4, ntohl(p->sin_addr.s_addr)};
    e.port  = ntohs(p->sin_port);
  } else if (sa->sa_family == AF_INET6) {
    auto *p = reinterpret_cast<sockaddr_in6 const *>(sa);
    e.a     = {6, val(p->sin6_addr)};
    e.port  = ntohs(p->sin6_port);
  }
  return e;
}
EP
read(IP4Srv const &s)
{
  REQ_EQ(s.network_order_port(), htons(s.host_order_port()), "port byte order");
  return {{4, val(s.addr())}, s.host_order_port()};
}
EP
read(IP6Srv const &s)
{
  REQ_EQ(s.network_order_port(), htons(s.host_order_port()), "port byte order");
  return {{6, val(s.addr())}, s.host_order_port()};
}
EP
read(IPSrv const &s)
{
  REQ_EQ(s.network_order_port(), htons(s.host_order_port()), "port byte order");
  EP e{val(s.addr()), s.host_order_port()};
  REQ_EQ(s.is_valid(), e.a.f != 0, "IPSrv::is_valid");
  REQ_EQ(s.is_ip4(), e.a.f == 4, "IPSrv::is_ip4");
  REQ_EQ(s.is_ip6(), e.a.f == 6, "IPSrv::is_ip6");
  REQ_EQ(int(s.family()), e.a.f == 4 ? AF_INET : e.a.f == 6 ? AF_INET6 : AF_UNSPEC, "IPSrv::family");
  if (e.a.f == 4)
    REQ(read(s.ip4()) == e, "IPSrv::ip4");
  if (e.a.f == 6)
    REQ(read(s.ip6()) == e, "IPSrv::ip6");
  return e;
}
std::string
str(EP const &e)
{
  if (e.a.f == 0)
    return "invalid";
  return e.a.f == 6 ? "[" + text(6, e.a.v) + "]:" + std::to_string(e.port) : text(4, e.a.v) + ":" + std::to_string(e.port);
}
IPSrv
mk_srv(EP const &e)
{
  return e.a.f ? IPSrv(mk(e.a), e.port) : IPSrv();
}
/// All observers of an endpoint.
void
check(IPEndpoint const &ep, EP const &m, char const *what)
{
  REQ(read(&ep.sa) == m, what, ": contents are ", str(read(&ep.sa)), " not ", str(m));
  IPEndpoint &mut = const_cast<IPEndpoint &>(ep);
  bool v4 = m.a.f == 4, v6 = m.a.f == 6, valid = m.a.f != 0;
  REQ_EQ(ep.is_valid(), valid, what, ": is_valid");
  REQ_EQ(IPEndpoint::is_valid(&ep.sa), valid, what, ": static is_valid");
  REQ_EQ(ep.is_ip4(), v4, what, ": is_ip4");
  REQ_EQ(ep.is_ip6(), v6, what, ": is_ip6");
  if (valid)
    REQ_EQ(int(ep.family()), v4 ? AF_INET : AF_INET6, what, ": family");
  REQ_EQ((void const *)ep.ip4(), v4 ? (void const *)&ep.sa4 : nullptr, what, ": ip4");
  REQ_EQ((void const *)ep.ip6(), v6 ? (void const *)&ep.sa6 : nullptr, what, ": ip6");
  REQ_EQ((void const *)mut.ip4(), v4 ? (void const *)&ep.sa4 : nullptr, what, ": ip4");
  REQ_EQ((void const *)mut.ip6(), v6 ? (void const *)&ep.sa6 : nullptr, what, ": ip6");
  size_t n = v4 ? sizeof(sockaddr_in) : v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr);
  REQ_EQ(size_t(ep.size()), n, what, ": size");
  REQ_EQ(ep.sa_size(), n, what, ": sa_size");
  REQ_EQ(IPEndpoint::sa_size(&ep.sa), n, what, ": static sa_size");
  REQ_EQ(ep.host_order_port(), m.port, what, ": host order port");
  REQ_EQ(ep.network_order_port(), htons(m.port), what, ": network order port");
  REQ_EQ(IPEndpoint::host_order_port(&ep.sa), m.port, what, ": static host order port");
  REQ_EQ(IPEndpoint::network_order_port(&ep.sa), htons(m.port), what, ": static network order port");
  REQ((sockaddr const *)ep == &ep.sa && (sockaddr *)mut == &ep.sa, what, ": conversion to sockaddr");
  auto raw = ep.raw_addr();
  REQ_EQ(raw.size(), size_t(v4 ? 4 : v6 ? 16 : 0), what, ": raw_addr size");
  if (v4) {
    uint32_t a = htonl(uint32_t(m.a.v));
    REQ(raw.data() == &ep.sa4.sin_addr && memcmp(raw.data(), &a, 4) == 0, what, ": raw address");
  } else if (v6) {
    in6_addr a = raw6(m.a.v);
    REQ(raw.data() == &ep.sa6.sin6_addr && memcmp(raw.data(), &a, 16) == 0, what, ": raw address");
  }
  if (valid) {
    REQ_EQ(IPEndpoint::port(mut), htons(m.port), what, ": port reference");
  } else {
    bool thrown = false;
    try {
      (void)IPEndpoint::port(mut);
    } catch (std::exception const &) {
      thrown = true;
    }
    REQ(thrown, what, ": port reference of an invalid address");
  }
  // The components
  IPAddr a = mk(m.a);
  REQ(val(IPAddr(ep)) == m.a, what, ": address of endpoint");
  REQ(val(IPAddr(&ep.sa)) == m.a, what, ": address of sockaddr");
  if (valid) {
    REQ_EQ(ep.is_any(), m.a.v == 0, what, ": is_any");
    REQ_EQ(ep.is_any(), v4 ? a.ip4().is_any() : a.ip6().is_any(), what, ": is_any and address");
    REQ_EQ(ep.is_loopback(), v4 ? m.a.v >> 24 == 127 : m.a.v == 1, what, ": is_loopback");
    REQ_EQ(ep.is_loopback(), a.is_loopback(), what, ": is_loopback and address");
    bool ll = v4 ? m.a.v >> 16 == 0xa9fe : m.a.v >> 118 == 0xfe80 >> 6;
    bool pr = v4 ? m.a.v >> 24 == 10 || m.a.v >> 22 == 0x6440 >> 6 || m.a.v >> 20 == 0xac1 || m.a.v >> 16 == 0xc0a8 :
                   m.a.v >> 121 == 0xfc >> 1;
    bool mc = v4 ? m.a.v >> 28 == 0xe : m.a.v >> 120 == 0xff;
    REQ_EQ(ep.is_link_local(), ll, what, ": is_link_local");
    REQ_EQ(IPEndpoint::is_link_local(&ep.sa), ll, what, ": static is_link_local");
    REQ_EQ(a.is_link_local(), ll, what, ": is_link_local and address");
    REQ_EQ(ep.is_private(), pr, what, ": is_private");
    REQ_EQ(IPEndpoint::is_private(&ep.sa), pr, what, ": static is_private");
    REQ_EQ(a.is_private(), pr, what, ": is_private and address");
    REQ_EQ(ep.is_multicast(), mc, what, ": is_multicast");
    REQ_EQ(IPEndpoint::is_multicast(&ep.sa), mc, what, ": static is_multicast");
    REQ_EQ(a.is_multicast(), mc, what, ": is_multicast and address");
  } else {
    REQ(!ep.is_any() && !ep.is_loopback() && !ep.is_link_local() && !ep.is_private() && !ep.is_multicast(), what,
        ": invalid address in a network");
  }
  // An endpoint is equal to an address if that is its address.
  REQ((a == ep) && (ep == a) && !(a != ep) && !(ep != a), what, ": equal to its address");
  if (valid) {
    IPAddr o = mk({m.a.f, m.a.v ^ 1}), nil;
    REQ(!(o == ep) && !(ep == o) && (o != ep) && (ep != o), what, ": not equal to another address");
    REQ(!(nil == ep) && !(ep == nil) && (nil != ep) && (ep != nil), what, ": not equal to an invalid address");
  }
  IPAddr assigned;
  assigned = ep;
  REQ(val(assigned) == m.a, what, ": address assigned from endpoint");
  REQ(read(IPSrv(ep)) == m, what, ": service of endpoint");
  REQ(read(IPSrv(&ep.sa)) == m, what, ": service of sockaddr");
}
} // namespace

PROPERTY(endpoint, 4, "at least two changes, of differing family or port")
{
  g.scaled();
  g.huge();
  EP m = gen_ep(g);
  g.note("start ", str(m));
  IPEndpoint ep;
  REQ(!ep.is_valid(), "default endpoint is valid");
  if (m.a.f) {
    IPEndpoint *p;
    Sock s = sock(m);
    alignas(IPEndpoint) char mem[sizeof(IPEndpoint)];
    memset(mem, g.flip() ? 0xA5 : 2, sizeof mem);
    bool port = m.port != 0;
    switch (g.draw(5)) {
    case 0:
      p = new (mem) IPEndpoint(s.sa());
      break;
    case 1:
      p = m.a.f == 4 ? new (mem) IPEndpoint(s.sa4()) : new (mem) IPEndpoint(s.sa6());
      break;
    case 2:
      p = new (mem) IPEndpoint(mk_srv(m));
      break;
    case 3:
      p = port ? new (mem) IPEndpoint(std::string_view(str(m))) : new (mem) IPEndpoint(mk(m.a));
      break;
    case 4:
      p = new (mem) IPEndpoint(mk(m.a));
      IPEndpoint::port(*p) = htons(m.port);
      break;
    default: {
      IPEndpoint x(s.sa());
      p = new (mem) IPEndpoint(x);
      break;
    }
    }
    check(*p, m, "constructed");
    ep = *p;
  } else if (g.flip()) {
    IPEndpoint a{IPAddr()}, b{IPSrv()}, c{std::string_view("bogus")};
    REQ(!a.is_valid() && !b.is_valid() && !c.is_valid(), "construct from invalid");
    ep = a;
  }
  check(ep, m, "start");
  bool interesting = false;
  for (unsigned i = 0; g.more(4, i, 20); ++i) {
    EP x = gen_ep(g);
    interesting |= x.a.f && m.a.f && (x.a.f != m.a.f || x.port != m.port);
    unsigned op = unsigned(g.draw(13));
    g.note("op ", op, " ", str(x));
    Sock s = sock(x, uint32_t(g.draw(~0u)), uint32_t(g.draw(~0u)));
    switch (op) {
    case 0:
      ep.assign(s.sa());
      m = x;
      if (m.a.f == 6)
        REQ(memcmp(&ep.sa6, s.sa6(), sizeof(sockaddr_in6)) == 0, "all of sockaddr is copied");
      break;
    case 1:
      if (!x.a.f)
        continue;
      x.a.f == 4 ? ep.assign(s.sa4()) : ep.assign(s.sa6());
      m = x;
      if (m.a.f == 6)
        REQ(memcmp(&ep.sa6, s.sa6(), sizeof(sockaddr_in6)) == 0, "all of sockaddr is copied");
      break;
    case 2: // address only, so no port.
      if (!x.a.f)
        continue;
      if (g.flip()) {
        ep.assign(mk(x.a));
        x.port = 0;
      } else {
        ep.assign(mk(x.a), x.port);
      }
      m = x;
      break;
    case 3:
      if (!x.a.f)
        continue;
      x.a.f == 4 ? ep.assign(ip4(x.a.v)) : ep.assign(ip6(x.a.v));
      x.port = 0;
      m      = x;
      break;
    case 4:
      if (!x.a.f)
        continue;
      ep.assign(mk_srv(x));
      m = x;
      break;
    case 5:
      if (!x.a.f)
        continue;
      x.a.f == 4 ? ep.assign(IP4Srv(ip4(x.a.v), x.port)) : ep.assign(IP6Srv(ip6(x.a.v), x.port));
      m = x;
      break;
    case 6: {
      IPEndpoint y;
      if (x.a.f)
        y.assign(mk_srv(x));
      ep = y;
      m  = x;
      check(y, x, "source");
      break;
    }
    case 7:
      ep.invalidate();
      m = {};
      break;
    case 8: {
      int f = g.flip() ? 4 : 6;
      ep.set_to_any(f == 4 ? AF_INET : AF_INET6);
      REQ(ep.is_any(), "set_to_any");
      m = {{f, 0}, 0};
      break;
    }
    case 9: {
      int f = g.flip() ? 4 : 6;
      ep.set_to_loopback(f == 4 ? AF_INET : AF_INET6);
      REQ(ep.is_loopback(), "set_to_loopback");
      m = {{f, f == 4 ? 0x7f000001u : 1u}, 0};
      break;
    }
    case 10:
      if (m.a.f) {
        m.port              = gen_port(g);
        IPEndpoint::port(ep) = htons(m.port);
      }
      break;
    case 11: { // to an exactly sized other one, and self
      Sock out = sock(m);
      memset(out.mem.get(), 0x5A, out.n);
      ep.copy_to(out.sa());
      REQ(read(out.sa()) == m, "copy_to");
      memset(out.mem.get(), 0x5A, out.n);
      REQ_EQ(IPEndpoint::assign(out.sa(), &ep.sa), m.a.f != 0, "assign result");
      REQ(read(out.sa()) == m, "static assign");
      if (m.a.f)
        REQ(memcmp(out.sa(), &ep.sa, out.n) == 0, "copy is of all octets");
      IPEndpoint::invalidate(out.sa());
      REQ(!IPEndpoint::is_valid(out.sa()), "invalidate");
      REQ_EQ(IPEndpoint::host_order_port(out.sa()), 0, "port of invalid");
      REQ_EQ(IPEndpoint::network_order_port(out.sa()), 0, "port of invalid");
      ep = *&ep;
      REQ_EQ(IPEndpoint::assign(&ep.sa, &ep.sa), m.a.f != 0, "self assign");
      break;
    }
    case 12:
      REQ_EQ(ep.parse(x.a.f ? str(x) : std::string("300.1.1.1:80")), x.a.f != 0, "parse");
      m = x;
      break;
    default: {
      auto was = m;
      std::string t = g.str("0123456789:.[]abcdef ", 24);
      bool r        = ep.parse(t);
      m             = read(&ep.sa);
      REQ_EQ(r, m.a.f != 0, "parse result for ", pbt::esc(t));
      REQ_EQ(IPEndpoint(std::string_view(t)).is_valid(), r, "construct from ", pbt::esc(t));
      (void)was;
      break;
    }
    }
    if (m.a.f == 6 && ((op >= 2 && op <= 6) || op == 8 || op == 9 || op == 12)) { // nothing left of what was there before.
      REQ_EQ(uint32_t(ep.sa6.sin6_flowinfo), 0u, "flow after a change by other than a socket address, op ", op);
      REQ_EQ(uint32_t(ep.sa6.sin6_scope_id), 0u, "scope after a change by other than a socket address, op ", op);
    }
    check(ep, m, "after change");
  }
  REQ(!IPEndpoint::is_valid(nullptr), "null");
  g.nontrivial(interesting);
}

PROPERTY(service, 3, "at least one change of family or port on a valid service")
{
  g.scaled();
  g.huge();
  EP m = gen_ep(g);
  IPSrv s;
  REQ(!s.is_valid(), "default service");
  alignas(IPSrv) char mem[sizeof(IPSrv)];
  memset(mem, 0xA5, sizeof mem);
  if (m.a.f) {
    Sock k = sock(m);
    IPSrv *p;
    switch (g.draw(6)) {
    case 0:
      p = m.a.f == 4 ? new (mem) IPSrv(ip4(m.a.v), m.port) : new (mem) IPSrv(ip6(m.a.v), m.port);
      break;
    case 1:
      p = new (mem) IPSrv(mk(m.a), m.port);
      break;
    case 2:
      p = new (mem) IPSrv(k.sa());
      break;
    case 3:
      p = m.a.f == 4 ? new (mem) IPSrv(k.sa4()) : new (mem) IPSrv(k.sa6());
      break;
    case 4:
      p = new (mem) IPSrv(IPEndpoint(k.sa()));
      break;
    case 5:
      p = new (mem) IPSrv(TextView(str(m)));
      break;
    default:
      p      = m.a.f == 4 ? new (mem) IPSrv(ip4(m.a.v)) : new (mem) IPSrv(mk(m.a));
      m.port = 0;
      break;
    }
    REQ(read(*p) == m, "construct ", str(read(*p)), " want ", str(m));
    s = *p;
    if (m.a.f == 4) {
      IP4Srv t = g.flip() ? IP4Srv(ip4(m.a.v), m.port) : IP4Srv(k.sa4());
      if (t.host_order_port() != m.port)
        t.assign(m.port);
      REQ(read(t) == m, "IP4Srv");
      REQ(read(IP4Srv(ip4(m.a.v))) == (EP{m.a, 0}), "IP4Srv of an address");
      REQ(read(IP4Srv(s)) == m, "IP4Srv of IPSrv");
      REQ(read(IP6Srv(s)) == (EP{{6, 0}, 0}), "IP6Srv of IPv4 service");
      REQ(val(static_cast<IP4Addr const &>(t)) == m.a.v, "conversion to address");
      REQ_EQ(int(t.family()), AF_INET, "family");
    } else {
      IP6Srv t = g.flip() ? IP6Srv(ip6(m.a.v), m.port) : IP6Srv(k.sa6());
      if (t.host_order_port() != m.port)
        t.assign(m.port);
      REQ(read(t) == m, "IP6Srv");
      REQ(read(IP6Srv(ip6(m.a.v))) == (EP{m.a, 0}), "IP6Srv of an address");
      REQ(read(IP6Srv(s)) == m, "IP6Srv of IPSrv");
      REQ(read(IP4Srv(s)) == (EP{{4, 0}, 0}), "IP4Srv of IPv6 service");
      REQ(val(static_cast<IP6Addr const &>(t)) == m.a.v, "conversion to address");
      REQ_EQ(int(t.family()), AF_INET6, "family");
    }
  } else {
    REQ(!IPSrv(IPAddr(), 80).is_valid() && !IPSrv(IPEndpoint()).is_valid() && !IPSrv(TextView("1.2.3.4.5:80")).is_valid(),
        "construct from invalid");
  }
  REQ(read(s) == m, "start ", str(read(s)), " want ", str(m));
  IP4Srv s4;
  IP6Srv s6;
  EP m4{{4, 0}, 0}, m6{{6, 0}, 0};
  REQ(read(s4) == m4 && read(s6) == m6, "default family services");
  bool interesting = false;
  for (unsigned i = 0; g.more(4, i, 20); ++i) {
    EP x   = gen_ep(g, false);
    Sock k = sock(x);
    EP was = m;
    unsigned op = unsigned(g.draw(8));
    g.note("op ", op, " ", str(x));
    switch (op) {
    case 0: // keep port
      x.a.f == 4 ? s.assign(ip4(x.a.v)) : s.assign(ip6(x.a.v));
      x.a.f == 4 ? (void)s4.assign(ip4(x.a.v)) : (void)s6.assign(ip6(x.a.v));
      (x.a.f == 4 ? m4 : m6).a = m.a = x.a;
      break;
    case 1:
      s.assign(mk(x.a));
      m.a = x.a;
      break;
    case 2: // keep address
      s.assign(x.port);
      s4.assign(x.port);
      s6.assign(x.port);
      m4.port = m6.port = x.port;
      if (m.a.f)
        m.port = x.port;
      break;
    case 3:
      s.assign(mk(x.a), x.port);
      m = x;
      break;
    case 4:
      x.a.f == 4 ? s.assign(ip4(x.a.v), x.port) : s.assign(ip6(x.a.v), x.port);
      x.a.f == 4 ? (void)s4.assign(ip4(x.a.v), x.port) : (void)s6.assign(ip6(x.a.v), x.port);
      (x.a.f == 4 ? m4 : m6) = m = x;
      break;
    case 5:
      g.flip() ? s.assign(k.sa()) : s = k.sa();
      m = x;
      break;
    case 6:
      if (x.a.f == 4) {
        g.flip() ? s.assign(k.sa4()) : s = k.sa4();
        s4.assign(k.sa4());
        m4 = x;
      } else {
        g.flip() ? s.assign(k.sa6()) : s = k.sa6();
        s6.assign(k.sa6());
        m6 = x;
      }
      m = x;
      break;
    case 7:
      x.a.f == 4 ? s = IP4Srv(ip4(x.a.v), x.port) : s = IP6Srv(ip6(x.a.v), x.port);
      m = x;
      break;
    default: { // to and from endpoint and text
      if (m.a.f) {
        IPEndpoint ep(s);
        check(ep, m, "endpoint of service");
        s = IPSrv(ep);
        REQ(s.load(str(m)), "load of ", str(m));
      }
      break;
    }
    }
    REQ(read(s) == m, "after change: ", str(read(s)), " want ", str(m));
    REQ(read(s4) == m4, "IPv4 service is ", str(read(s4)), " want ", str(m4));
    REQ(read(s6) == m6, "IPv6 service is ", str(read(s6)), " want ", str(m6));
    interesting |= was.a.f && (m.a.f != was.a.f || m.port != was.port);
  }
  g.nontrivial(interesting);
}

namespace
{
template <typename A, typename B>
void
order(A const &a, B const &b, int cmp, char const *what)
{
  REQ_EQ(a == b, cmp == 0, what, ": ==");
  REQ_EQ(a != b, cmp != 0, what, ": !=");
  REQ_EQ(a < b, cmp < 0, what, ": <");
  REQ_EQ(a <= b, cmp <= 0, what, ": <=");
  REQ_EQ(a > b, cmp > 0, what, ": >");
  REQ_EQ(a >= b, cmp >= 0, what, ": >=");
}
template <int F>
void
orders(Src &g)
{
  using Srv = typename Fam<F>::Srv;
  u128 va = gen_value(g, F), vb = g.flip() ? va : nearby(g, F, va);
  uint16_t pa = gen_port(g), pb = g.flip() ? pa : gen_port(g);
  g.note(str({{F, va}, pa}), " ", str({{F, vb}, pb}));
  g.nontrivial(va == vb || (va < vb) != (pa < pb));
  Srv a(Fam<F>::make(va), pa), b(Fam<F>::make(vb), pb);
  int cmp = va < vb ? -1 : va > vb ? 1 : pa < pb ? -1 : pa > pb ? 1 : 0;
  order(a, b, cmp, "service");
  order(b, a, -cmp, "service");
  order(IPSrv(Fam<F>::make(va), pa), b, cmp, "generic and specific");
  order(a, IPSrv(Fam<F>::make(vb), pb), cmp, "specific and generic");
  auto A = Fam<F>::make(va), B = Fam<F>::make(vb);
  IPSrv ga(A, pa);
  REQ_EQ(ga == B, va == vb, "generic and address ==");
  REQ_EQ(B == ga, va == vb, "address and generic ==");
  REQ_EQ(ga != B, va != vb, "generic and address !=");
  REQ_EQ(B != ga, va != vb, "address and generic !=");
  // the other family is just different.
  constexpr int O = 10 - F;
  typename Fam<O>::Srv o(Fam<O>::make(va & Fam<O>::MAX), pa);
  REQ(!(ga == o) && !(o == ga) && ga != o && o != ga, "other family");
  REQ(!(ga == o.addr()) && !(o.addr() == ga) && ga != o.addr() && o.addr() != ga, "other family address");
  IPSrv nil;
  REQ(!(nil == a) && !(a == nil) && nil != a && a != nil, "invalid");
  REQ(!(nil == A) && !(A == nil) && nil != A && A != nil, "invalid and address");
}
} // namespace
PROPERTY(compare, 2, "equal addresses or ports in opposite order")
{
  g.scaled();
  g.huge();
  g.flip() ? orders<4>(g) : orders<6>(g);
}

namespace
{
struct Tok {
  bool r = false;
  std::string addr, port, rest;
};
/// Reference tokenizer.
Tok
ref_tokens(std::string s)
{
  Tok t;
  size_t i = 0;
  while (i < s.size() && isspace((unsigned char)s[i]))
    ++i;
  s.erase(0, i);
  if (s.empty())
    return t;
  bool colon = false;
  if (s[0] == '[') {
    size_t x = s.find(']');
    if (x == s.npos) {
      t.rest = s.substr(1);
      return t;
    }
    t.addr = s.substr(1, x - 1);
    s.erase(0, x + 1);
    colon = !s.empty() && s[0] == ':';
  } else {
    size_t n = std::count(s.begin(), s.end(), ':');
    size_t x = n == 1 ? s.find(':') : s.size();
    t.addr   = s.substr(0, x);
    s.erase(0, x);
    colon = n == 1;
  }
  if (colon) {
    size_t n = 1;
    while (n < s.size() && isdigit((unsigned char)s[n]))
      ++n;
    if (n > 1) {
      t.port = s.substr(1, n - 1);
      s.erase(0, n);
    }
  }
  t.rest = s;
  t.r    = !t.addr.empty();
  return t;
}
std::string
gen_ep_text(Src &g)
{
  EP e = gen_ep(g, false);
  std::string s = g.chance(10) ? " " : "";
  std::string a = text(e.a.f, e.a.v);
  if (g.chance(10))
    a = g.str("0123456789.:[]abcdefgx ", 20, 6);
  bool bracket = e.a.f == 6 ? g.chance(80) : g.chance(5);
  s += bracket ? "[" + a + "]" : a;
  switch (g.weighted({5, 2, 2, 1, 1})) {
  case 0:
    s += ":" + std::to_string(e.port);
    break;
  case 1:
    break;
  case 2:
    s += ":" + std::to_string(g.flip() ? 65530 + g.draw(12) : g.edgy());
    break;
  case 3:
    s += ":";
    break;
  case 4:
    s += ":" + g.str("0123456789", 30, 8);
    break;
  }
  if (g.chance(15))
    s += g.str(" \t:abc/]0", 4);
  if (g.chance(15) && !s.empty()) {
    size_t at = g.draw(s.size() - 1);
    if (g.flip())
      s.erase(at, 1);
    else
      s.insert(at, 1, g.pick({':', '[', ']', ' ', '.', '0', 'f', '\0', '-'}));
  }
  return s;
}
} // namespace

PROPERTY(tokenize, 3, "address found and there is a port or remainder")
{
  g.scaled();
  g.huge();
  std::string s = gen_ep_text(g);
  g.note("text ", pbt::esc(s));
  Exact x(s);
  Tok want = ref_tokens(s);
  g.nontrivial(want.r && (!want.port.empty() || !want.rest.empty()));
  std::string_view addr{"x"}, port{"y"}, rest{"z"};
  REQ_EQ(IPEndpoint::tokenize(x.view(), &addr, &port, &rest), want.r, "result for ", pbt::esc(s));
  REQ_EQ(std::string(addr), want.addr, "address in ", pbt::esc(s));
  REQ_EQ(std::string(port), want.port, "port in ", pbt::esc(s));
  REQ_EQ(std::string(rest), want.rest, "rest of ", pbt::esc(s));
  for (auto v : {addr, port, rest})
    REQ(v.empty() || (v.data() >= x.p && v.data() + v.size() <= x.p + x.n), "token outside of source");
  unsigned k = unsigned(g.draw(7));
  std::string_view a2{"x"}, p2{"y"}, r2{"z"};
  REQ_EQ(IPEndpoint::tokenize(x.view(), k & 1 ? &a2 : nullptr, k & 2 ? &p2 : nullptr, k & 4 ? &r2 : nullptr), want.r,
         "result without all outputs");
  REQ(a2 == (k & 1 ? addr : "x") && p2 == (k & 2 ? port : "y") && r2 == (k & 4 ? rest : "z"), "outputs");
}

PROPERTY(parse, 4, "accepted, or has address but rejected because of port or remainder")
{
  g.scaled();
  g.huge();
  std::string s = gen_ep_text(g);
  g.note("text ", pbt::esc(s));
  Tok t = ref_tokens(s);
  if (t.port.size() > 1 && t.port[0] == '0') // could be octal
    g.discard();
  bool port_ok = t.port.empty() || (t.port.size() < 6 && std::stoul(t.port) <= 65535);
  uint16_t p   = port_ok && !t.port.empty() ? uint16_t(std::stoul(t.port)) : 0;
  auto want_of = [&](Tok const &t) {
    EP e;
    if (t.r && t.rest.empty() && port_ok) {
      IPAddr a;
      if (a.load(t.addr))
        e = {val(a), p};
    }
    return e;
  };
  EP want = want_of(t);
  IPAddr tmp;
  bool found = t.r && tmp.load(t.addr);
  g.nontrivial(want.a.f || found);
  g.label("accepted", want.a.f);
  g.label("bad port", found && !port_ok);
  g.label("trailing", found && !t.rest.empty());
  Exact x(s);
  auto which = [&](int f, bool r, EP const &got, EP const &w, char const *what) {
    bool ok = w.a.f && (f == 0 || w.a.f == f);
    REQ_EQ(r, ok, what, " of ", pbt::esc(s));
    if (ok)
      REQ(got == w, what, " of ", pbt::esc(s), " is ", str(got), " want ", str(w));
  };
  IPSrv sv = mk_srv(gen_ep(g));
  bool r   = sv.load(x.view());
  which(0, r, read(sv), want, "IPSrv");
  REQ_EQ(IPSrv(TextView(x.view())).is_valid(), bool(want.a.f), "IPSrv construct of ", pbt::esc(s));
  if (t.addr.find('.') != t.addr.npos || t.addr.find(':') != t.addr.npos) { // generic numbers aren't defined.
    IP4Srv s4;
    IP4Addr a4;
    EP w4;
    if (t.r && t.rest.empty() && port_ok && a4.load(t.addr))
      w4 = {{4, val(a4)}, p};
    r = s4.load(x.view());
    which(4, r, read(s4), w4, "IP4Srv");
    if (w4.a.f)
      REQ(read(IP4Srv(TextView(x.view()))) == w4, "IP4Srv construct");
    IP6Srv s6;
    IP6Addr a6;
    EP w6;
    if (t.r && t.rest.empty() && port_ok && a6.load(t.addr))
      w6 = {{6, val(a6)}, p};
    r = s6.load(x.view());
    which(6, r, read(s6), w6, "IP6Srv");
    if (w6.a.f)
      REQ(read(IP6Srv(TextView(x.view()))) == w6, "IP6Srv construct");
  }
  // Endpoint allows white space.
  std::string padded = g.str(" \t\n", 2) + s + g.str(" \t\n", 2);
  std::string core   = s;
  while (!core.empty() && isspace((unsigned char)core.back()))
    core.pop_back();
  Tok tc = ref_tokens(core);
  EP wc;
  bool ok = tc.port.empty() || (tc.port.size() < 6 && std::stoul(tc.port) <= 65535);
  if (tc.r && tc.rest.empty() && ok) {
    IPAddr a;
    if (a.load(tc.addr))
      wc = {val(a), tc.port.empty() ? uint16_t(0) : uint16_t(std::stoul(tc.port))};
  }
  Exact y(padded);
  IPEndpoint ep(mk_srv(gen_ep(g)));
  which(0, ep.parse(y.view()), read(&ep.sa), wc, "endpoint parse");
  check(ep, wc, "parsed");
}

// Not dependent on the library for the address.
PROPERTY(texts, 3, "port is not zero")
{
  g.scaled();
  g.huge();
  EP e = gen_ep(g, false);
  g.note(str(e));
  g.nontrivial(e.port != 0);
  std::string a  = text(e.a.f, e.a.v);
  std::string sp = std::to_string(e.port);
  // read
  std::vector<std::pair<std::string, EP>> forms{
    {str(e), e}
  };
  forms.push_back({a, {e.a, 0}});
  if (e.a.f == 6)
    forms.push_back({"[" + a + "]", {e.a, 0}});
  for (auto &[s, want] : forms) {
    Exact x(s);
    IPEndpoint ep;
    REQ(ep.parse(x.view()) && read(&ep.sa) == want, "endpoint parse of ", s, " is ", str(read(&ep.sa)));
    IPSrv sv;
    REQ(sv.load(x.view()) && read(sv) == want, "service load of ", s, " is ", str(read(sv)));
    std::string bad = s + g.pick({"z", ":", "]", "/24", " 1", "-", ".", "\xff"});
    Exact y(bad);
    REQ(!ep.parse(y.view()) && !ep.is_valid(), "endpoint accepts ", pbt::esc(bad));
    REQ(!sv.load(y.view()), "service accepts ", pbt::esc(bad));
    std::string big = (e.a.f == 6 ? "[" + a + "]" : a) + ":" + std::to_string(g.flip() ? 65536 + g.draw(9) : 65536 + g.edgy() / 2);
    REQ(!ep.parse(big) && !ep.is_valid(), "endpoint accepts ", big);
    REQ(!sv.load(big), "service accepts ", big);
  }
  // write
  IPEndpoint ep(mk_srv(e));
  IPSrv sv      = mk_srv(e);
  std::string s = e.port ? str(e) : a;
  REQ_EQ(print("{}", ep), str(e), "endpoint text");
  REQ_EQ(print("{}", &ep.sa), str(e), "sockaddr text");
  REQ_EQ(e.a.f == 4 ? print("{}", &ep.sa4) : print("{}", &ep.sa6), str(e), "sockaddr_in text");
  REQ_EQ(print("{}", sv), s, "service text");
  REQ_EQ(e.a.f == 4 ? print("{}", sv.ip4()) : print("{}", sv.ip6()), s, "family service text");
  REQ_EQ(print("{::a}", ep), a, "address");
  REQ_EQ(print("{::p}", ep), sp, "port");
  std::string fam = e.a.f == 4 ? "ipv4" : "ipv6";
  REQ_EQ(print("{::f}", ep), fam, "family");
  REQ_EQ(print("{::pa}", ep), str(e), "address and port");
  REQ_EQ(print("{::ap}", ep), str(e), "address and port");
  REQ_EQ(print("{::apf}", ep), str(e) + " " + fam, "address, port and family");
  REQ_EQ(print("{::fa}", ep), a + " " + fam, "address and family");
  REQ_EQ(print("{::pf}", ep), sp + " " + fam, "port and family");
  REQ_EQ(print("{:d:f}", ep), std::to_string(e.a.f == 4 ? AF_INET : AF_INET6), "numeric family");
  REQ_EQ(std::string(IPEndpoint::family_name(ep.family())), fam, "family name");
  {
    char ptr[32];
    snprintf(ptr, sizeof ptr, "%p", static_cast<void const *>(&ep.sa));
    REQ_EQ(print("{:p}", &ep.sa), std::string(ptr), "pointer text of a socket address");
  }
  REQ(!IPEndpoint().parse(print("{}", IPEndpoint{})), "text of an invalid endpoint is valid");
  REQ(!IPSrv().load(print("{}", IPSrv{})), "text of an invalid service is valid");
  for (auto [f, name] : {std::pair<int, char const *>{AF_UNSPEC, "unspec"}, {AF_UNIX, "unix"}, {AF_PACKET, "unknown"}})
    REQ_EQ(std::string(IPEndpoint::family_name(f)), name, "family name");
  std::string p5 = std::string(5 - sp.size(), '0') + sp;
  REQ_EQ(print("{::=p}", ep), p5, "aligned port");
  REQ_EQ(print("{:: =p}", ep), std::string(5 - sp.size(), ' ') + sp, "aligned port");
  REQ_EQ(print("{::=a}", ep), print("{::=}", mk(e.a)), "aligned address");
  std::string all = print("{::=}", mk(e.a));
  REQ_EQ(print("{::=}", ep), (e.a.f == 6 ? "[" + all + "]:" : all + ":") + p5, "aligned");
  // and back again
  IPEndpoint x;
  REQ(x.parse(print("{}", ep)), "text is valid");
  check(x, e, "round trip");
  IPSrv y;
  REQ(y.load(print("{}", sv)) && read(y) == e, "service round trip");
  IPEndpoint nil;
  REQ(print("{}", nil).substr(0, 8) == "*Invalid", "invalid address: ", print("{}", nil));
}
