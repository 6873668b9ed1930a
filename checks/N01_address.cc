// N01 - addresses are unsigned integers.
#include "ip_util.h"
#include <unordered_set>
#include <set>
using pbt::Src;
using namespace swoc;

namespace
{
template <int F>
void
integer(Src &g)
{
  using T    = Fam<F>;
  using A    = typename T::Addr;
  u128 v     = g.chance(15) ? gen_special(g, F) : gen_value(g, F);
  u128 w     = g.flip() ? nearby(g, F, v) : gen_value(g, F);
  A const a  = T::make(v);
  A const b  = T::make(w);
  g.note("a ", show(v), " b ", show(w));
  g.nontrivial(v != w && v != 0);

  REQ_EQ(val(a), v, "construction and network order");
  REQ_EQ(a.family(), T::AF, "family");
  REQ(val(A::MIN) == 0 && val(A::MAX) == T::MAX, "limits");
  REQ(A{} == A::MIN, "default is the any address");
  // order
  REQ_EQ(a == b, v == w);
  REQ_EQ(a != b, v != w);
  REQ_EQ(a < b, v < w);
  REQ_EQ(a <= b, v <= w);
  REQ_EQ(a > b, v > w);
  REQ_EQ(a >= b, v >= w);
  int c = a.cmp(b);
  REQ_EQ(c < 0 ? -1 : c > 0 ? 1 : 0, v < w ? -1 : v > w ? 1 : 0, "cmp");
  if (v == w) {
    REQ_EQ(std::hash<A>()(a), std::hash<A>()(b), "hash of equal addresses");
  }
  // octets, text order
  for (unsigned i = 0; i < A::SIZE; ++i)
    REQ_EQ(unsigned(a[i]), unsigned(uint8_t(v >> (8 * (A::SIZE - 1 - i)))), "octet ", i);
  // step
  A n{a};
  A &r = ++n;
  REQ(&r == &n, "increment returns another object");
  REQ_EQ(val(n), (v + 1) & T::MAX, "increment");
  --n;
  REQ(n == a, "decrement undoes increment");
  n       = a;
  A &r2   = --n;
  REQ(&r2 == &n, "decrement returns another object");
  REQ_EQ(val(n), (v - 1) & T::MAX, "decrement");
  // bits.
  n = a;
  n &= b;
  REQ_EQ(val(n), v & w, "and");
  n = a;
  n |= b;
  REQ_EQ(val(n), v | w, "or");
  unsigned k = g.weighted({8, 2}) ? unsigned(g.draw(4) * (T::W / 4)) : unsigned(g.draw(T::W + 8));
  g.note("shift ", k);
  n = a;
  n <<= k;
  REQ_EQ(val(n), (k >= T::W ? 0 : v << k) & T::MAX, "left shift ", k);
  n = a;
  n >>= k;
  REQ_EQ(val(n), k >= T::W ? 0 : v >> k, "right shift ", k);
  n = a;
  n <<= k;
  unsigned k2 = unsigned(g.draw(T::W));
  n >>= k2;
  u128 left = (k >= T::W ? 0 : v << k) & T::MAX;
  REQ_EQ(val(n), k2 >= T::W ? 0 : left >> k2, "shift left ", k, " then right ", k2);
  // predicates
  REQ_EQ(a.is_any(), v == 0, "is_any");
  if constexpr (F == 4) {
    REQ_EQ(a.is_loopback(), v >> 24 == 127, "is_loopback");
    REQ_EQ(a.is_multicast(), v >> 28 == 0xE, "is_multicast");
    REQ_EQ(a.is_link_local(), v >> 16 == 0xA9FE, "is_link_local");
    in_addr_t raw = htonl(uint32_t(v));
    REQ_EQ(swoc::ip::is_loopback_host_order(uint32_t(v)), a.is_loopback(), "host order loopback");
    REQ_EQ(swoc::ip::is_multicast_host_order(uint32_t(v)), a.is_multicast(), "host order multicast");
    REQ_EQ(swoc::ip::is_link_local_host_order(uint32_t(v)), a.is_link_local(), "host order link local");
    REQ_EQ(swoc::ip::is_private_host_order(uint32_t(v)), a.is_private(), "host order private");
    REQ_EQ(swoc::ip::is_loopback_network_order(raw), a.is_loopback(), "network order loopback");
    REQ_EQ(swoc::ip::is_multicast_network_order(raw), a.is_multicast(), "network order multicast");
    REQ_EQ(swoc::ip::is_link_local_network_order(raw), a.is_link_local(), "network order link local");
    REQ_EQ(swoc::ip::is_private_network_order(raw), a.is_private(), "network order private");
    REQ_EQ(a.is_private(), v >> 24 == 10 || v >> 22 == 0x6440 >> 6 || v >> 20 == 0xac1 || v >> 16 == 0xc0a8, "is_private");
  } else {
    REQ_EQ(a.is_loopback(), v == 1, "is_loopback");
    REQ_EQ(a.is_multicast(), v >> 120 == 0xFF, "is_multicast");
    REQ_EQ(a.is_link_local(), v >> 118 == 0xFE80 >> 6, "is_link_local");
    REQ_EQ(a.is_private(), v >> 121 == 0xFC >> 1, "is_private");
    REQ_EQ(a.is_mapped_ip4(), v >> 32 == 0xFFFF, "is_mapped_ip4");
    in6_addr raw = raw6(v), other = raw6(w);
    REQ_EQ(swoc::ip::is_loopback_network_order(raw), a.is_loopback(), "network order loopback");
    REQ_EQ(swoc::ip::is_multicast_network_order(raw), a.is_multicast(), "network order multicast");
    REQ_EQ(swoc::ip::is_link_local_network_order(raw), a.is_link_local(), "network order link local");
    REQ_EQ(swoc::ip::is_private_network_order(raw), a.is_private(), "network order private");
    REQ((raw == other) == (v == w) && (raw != other) == (v != w), "in6_addr equality");
  }
  // The generic type says the same.
  IPAddr x{a};
  sockaddr_storage ss;
  memset(&ss, 0xA5, sizeof ss);
  auto sa = reinterpret_cast<sockaddr *>(&ss);
  a.copy_to(sa);
  REQ_EQ(swoc::ip::is_loopback(sa), a.is_loopback(), "sockaddr is_loopback");
  REQ_EQ(swoc::ip::is_multicast(sa), a.is_multicast(), "sockaddr is_multicast");
  REQ_EQ(swoc::ip::is_link_local(sa), a.is_link_local(), "sockaddr is_link_local");
  REQ_EQ(swoc::ip::is_private(sa), a.is_private(), "sockaddr is_private");
  sa->sa_family = AF_UNIX;
  REQ(!swoc::ip::is_loopback(sa) && !swoc::ip::is_multicast(sa) && !swoc::ip::is_link_local(sa) && !swoc::ip::is_private(sa),
      "not an IP address");
  REQ(val(static_cast<std::decay_t<decltype(a)>>(x)) == v, "conversion to the family type");
  REQ_EQ(x.is_loopback(), a.is_loopback(), "generic is_loopback");
  REQ_EQ(x.is_multicast(), a.is_multicast(), "generic is_multicast");
  REQ_EQ(x.is_link_local(), a.is_link_local(), "generic is_link_local");
  REQ_EQ(x.is_private(), a.is_private(), "generic is_private");
  REQ_EQ(std::hash<IPAddr>()(x), std::hash<IPAddr>()(IPAddr(T::make(v))), "generic hash");
  g.label("equal", v == w);
  g.label("crosses 64 bits", F == 6 && (v ^ w) >> 64 != 0);
  g.label("special", a.is_private() || a.is_link_local() || a.is_loopback() || a.is_multicast());
}
} // namespace

PROPERTY(ip4, 3, "distinct nonzero values")
{
  integer<4>(g);
  // representations
  uint32_t v = uint32_t(gen_value(g, 4));
  IP4Addr a{v};
  REQ_EQ(a.host_order(), v, "host order");
  REQ_EQ(a.network_order(), htonl(v), "network order");
  REQ_EQ(IP4Addr::reorder(v), htonl(v), "reorder");
  REQ_EQ(IP4Addr::reorder(IP4Addr::reorder(v)), v, "reorder is its own inverse");
  IP4Addr b;
  b = htonl(v); // raw address.
  REQ(b == a, "assignment of raw address");
  Exact block(std::string(sizeof(sockaddr_in), '\xA5'));
  auto *sin = reinterpret_cast<sockaddr_in *>(block.p);
  REQ(a.copy_to(sin) == sin, "copy_to result");
  REQ(sin->sin_family == AF_INET && sin->sin_addr.s_addr == htonl(v), "copy_to(sockaddr_in)");
  IP4Addr c{sin}, d;
  d = sin;
  REQ(c == a && d == a, "from sockaddr_in");
  IP4Addr e{uint32_t(~v)};
  auto *sa = reinterpret_cast<sockaddr *>(sin);
  REQ(e.copy_to(sa) == sa && sin->sin_addr.s_addr == htonl(~v) && sin->sin_family == AF_INET, "copy_to(sockaddr)");
  IP6Addr m{a};
  REQ_EQ(val(m), u128(0xFFFF) << 32 | v, "mapped address");
  REQ(m.is_mapped_ip4(), "mapped address is not mapped");
}

PROPERTY(ip6, 3, "distinct nonzero values")
{
  integer<6>(g);
  u128 v = gen_value(g, 6);
  g.note("v ", show(v));
  in6_addr const raw = raw6(v);
  IP6Addr a{raw}, b;
  b = raw;
  REQ(a == b, "assign raw address");
  in6_addr out, h;
  REQ(&a.network_order(out) == &out && 0 == memcmp(&out, &raw, 16), "network_order(dst)");
  out = a.network_order();
  REQ(0 == memcmp(&out, &raw, 16), "network_order()");
  out = a.host_order();
  u128 hv;
  memcpy(&hv, &out, 16);
  REQ_EQ(hv, v, "host_order()");
  REQ(&a.host_order(h) == &h && 0 == memcmp(&out, &h, 16), "host_order(dst)");
  Exact block(std::string(sizeof(sockaddr_in6), '\xA5'));
  auto *sin = reinterpret_cast<sockaddr_in6 *>(block.p);
  REQ(a.copy_to(sin) == sin, "copy_to result");
  REQ(sin->sin6_family == AF_INET6 && 0 == memcmp(&sin->sin6_addr, &raw, 16), "copy_to(sockaddr_in6)");
  IP6Addr c{sin}, d;
  d = sin;
  REQ(c == a && d == a, "from sockaddr_in6");
  d = static_cast<sockaddr_in6 const *>(nullptr);
  REQ(d.is_any(), "from null sockaddr_in6");
  IP6Addr e{ip6(~v)};
  auto *sa = reinterpret_cast<sockaddr *>(sin);
  REQ(e.copy_to(sa) == sa && val(sin->sin6_addr) == ~v && sin->sin6_family == AF_INET6, "copy_to(sockaddr)");
  // octet order conversion
  IP6Addr::raw_type r;
  IP6Addr::reorder(r, raw);
  IP6Addr::reorder(out, r);
  REQ(0 == memcmp(&out, &raw, 16), "reorder is its own inverse");
  REQ_EQ(a.as_span<uint8_t>().size(), 16u, "span");
  REQ_EQ(a.as_span<uint16_t>().size(), 8u, "span");
  REQ_EQ(a.as_span<uint64_t>().size(), 2u, "span");
  REQ(a.clear().is_any() && val(a) == 0, "clear");
}

PROPERTY(order, 3, "three different addresses, of more than one family")
{
  Any m[3];
  IPAddr x[3];
  for (int i = 0; i < 3; ++i) {
    m[i] = gen_any(g);
    if (i && g.chance(30)) {
      m[i] = m[i - 1];
      if (m[i].f && g.flip())
        m[i].v = nearby(g, m[i].f, m[i].v);
    } else if (i && g.chance(20) && m[i - 1].f) { // same value in the other family
      m[i].f = m[i - 1].f == 4 ? 6 : 4;
      m[i].v = m[i - 1].v & max_of(m[i].f);
    }
    switch (g.draw(3)) {
    case 0:
      x[i] = mk(m[i]);
      break;
    case 1: // left over data of another family must not matter.
      x[i] = mk(gen_any(g));
      if (m[i].f == 4)
        x[i].assign(htonl(uint32_t(m[i].v)));
      else if (m[i].f == 6)
        x[i].assign(raw6(m[i].v));
      else
        x[i].invalidate();
      break;
    case 2:
      x[i] = mk(gen_any(g));
      if (m[i].f == 4)
        x[i] = in_addr_t(htonl(uint32_t(m[i].v)));
      else if (m[i].f == 6)
        x[i] = raw6(m[i].v);
      else
        x[i] = IPAddr::INVALID;
      break;
    case 3: { // through a socket address.
      sockaddr_storage ss;
      memset(&ss, 0x5A, sizeof ss);
      ss.ss_family = AF_UNSPEC;
      if (m[i].f == 4)
        ip4(m[i].v).copy_to(reinterpret_cast<sockaddr *>(&ss));
      else if (m[i].f == 6)
        ip6(m[i].v).copy_to(reinterpret_cast<sockaddr *>(&ss));
      auto sa = reinterpret_cast<sockaddr const *>(&ss);
      switch (g.draw(2)) {
      case 0:
        x[i] = IPAddr(sa);
        break;
      case 1:
        x[i] = sa;
        break;
      default:
        x[i].assign(sa);
        break;
      }
      REQ(x[i] == sa && sa == x[i] && !(x[i] != sa) && !(sa != x[i]), "equal to its socket address");
      break;
    }
    }
    g.note("x", i, " v", m[i].f, " ", show(m[i].v));
    REQ(val(x[i]) == m[i], "value of x", i, " is v", val(x[i]).f, " ", show(val(x[i]).v));
    REQ_EQ(x[i].is_valid(), m[i].f != 0, "valid");
    REQ_EQ(x[i].family(), m[i].f == 4 ? AF_INET : m[i].f == 6 ? AF_INET6 : AF_UNSPEC, "family");
  }
  g.nontrivial(m[0] != m[1] && m[1] != m[2] && m[0] != m[2] && !(m[0].f == m[1].f && m[1].f == m[2].f));
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      bool lt = m[i] < m[j], gt = m[j] < m[i];
      REQ_EQ(x[i] == x[j], m[i] == m[j], i, j);
      REQ_EQ(x[i] != x[j], m[i] != m[j], i, j);
      REQ_EQ(x[i] < x[j], lt, i, j);
      REQ_EQ(x[i] > x[j], gt, i, j);
      REQ_EQ(x[i] <= x[j], !gt, i, j);
      REQ_EQ(x[i] >= x[j], !lt, i, j);
      int c = x[i].cmp(x[j]);
      REQ_EQ(c < 0 ? -1 : c > 0, lt ? -1 : int(gt), "cmp ", i, j);
      REQ_EQ(x[i].is_same_family(x[j]), m[i].f && m[i].f == m[j].f, "same family");
      // mixed
      IP4Addr a4 = ip4(m[j].v);
      IP6Addr a6 = ip6(m[j].v);
      bool e4 = m[i].f == 4 && m[i].v == (m[j].v & 0xFFFFFFFFu), e6 = m[i].f == 6 && m[i].v == m[j].v;
      REQ(((x[i] == a4) == e4) && ((a4 == x[i]) == e4) && ((x[i] != a4) == !e4) && ((a4 != x[i]) == !e4), "== IP4Addr");
      REQ(((x[i] == a6) == e6) && ((a6 == x[i]) == e6) && ((x[i] != a6) == !e6) && ((a6 != x[i]) == !e6), "== IP6Addr");
      if (m[i] == m[j])
        REQ_EQ(std::hash<IPAddr>()(x[i]), std::hash<IPAddr>()(x[j]), "hash of equal addresses");
    }
    // socket address output
    sockaddr_storage ss;
    memset(&ss, 0x5A, sizeof ss);
    auto sa = reinterpret_cast<sockaddr *>(&ss);
    REQ(x[i].copy_to(sa) == sa, "copy_to result");
    if (m[i].f)
      REQ(val(IPAddr(sa)) == m[i], "socket address round trip");
    for (int j = 0; m[i].f && j < 3; ++j)
      REQ((x[j] == sa) == (m[i] == m[j]) && (sa == x[j]) == (m[i] == m[j]) && (x[j] != sa) == (m[i] != m[j]) &&
            (sa != x[j]) == (m[i] != m[j]),
          "compare to socket address");
    // By family
    auto s4 = reinterpret_cast<sockaddr_in const *>(sa);
    auto s6 = reinterpret_cast<sockaddr_in6 const *>(sa);
    IPAddr y{x[(i + 1) % 3]};
    m[i].f == 4 ? y.assign(s4) : m[i].f == 6 ? y.assign(s6) : g.flip() ? y.assign(decltype(s4)(nullptr)) : y.assign(decltype(s6)(nullptr));
    REQ(val(y) == m[i], "assign from family socket address");
    IPAddr z{x[(i + 1) % 3]};
    sockaddr_storage other;
    memset(&other, 0x5A, sizeof other);
    other.ss_family = g.pick({AF_UNSPEC, AF_UNIX, 77});
    auto any        = m[i].f ? sa : g.flip() ? nullptr : reinterpret_cast<sockaddr *>(&other);
    g.flip() ? z.assign(static_cast<sockaddr const *>(any)) : z = static_cast<sockaddr const *>(any);
    REQ(val(z) == m[i] && z.is_valid() == (m[i].f != 0), "assign from socket address");
  }
  std::set<IPAddr> set(x, x + 3);
  std::set<Any> mset(m, m + 3);
  REQ_EQ(set.size(), mset.size(), "set of addresses");
  auto p = mset.begin();
  for (auto const &a : set)
    REQ(val(a) == *p++, "order of the set");
}
