// Shared by the IP harnesses: addresses as integers.
#pragma once
#include "util.h"
#include "swoc/swoc_ip.h"
#include "swoc/bwf_ip.h"
#include <arpa/inet.h>
#include <string>

using u128 = unsigned __int128;
inline constexpr u128 MAX128 = ~u128(0);

inline std::string
show(u128 v)
{
  char buff[40];
  snprintf(buff, sizeof buff, "%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  return buff;
}
template <> inline auto
pbt_show<u128>(u128 const &t) -> std::string
{
  return show(t);
}

inline in6_addr
raw6(u128 v)
{
  in6_addr a;
  for (int i = 15; i >= 0; --i, v >>= 8)
    a.s6_addr[i] = uint8_t(v);
  return a;
}
inline u128
val(in6_addr const &a)
{
  u128 v = 0;
  for (int i = 0; i < 16; ++i)
    v = v << 8 | a.s6_addr[i];
  return v;
}
inline swoc::IP6Addr
ip6(u128 v)
{
  return swoc::IP6Addr(raw6(v));
}
inline swoc::IP4Addr
ip4(u128 v)
{
  return swoc::IP4Addr(in_addr_t(v));
}
/// Family and value, as the model of a generic address.
struct Any {
  int f = 0; ///< 0, 4, 6
  u128 v = 0;
  bool operator==(Any const &x) const { return f == x.f && v == x.v; }
  bool operator!=(Any const &x) const { return !(*this == x); }
  bool operator<(Any const &x) const { return f != x.f ? f < x.f : v < x.v; }
};
// Observations.
inline u128
val(swoc::IP4Addr const &a)
{
  return ntohl(a.network_order());
}
inline u128
val(swoc::IP6Addr const &a)
{
  return val(a.network_order());
}
inline Any
val(swoc::IPAddr const &a)
{
  if (a.is_ip4())
    return {4, val(a.ip4())};
  if (a.is_ip6())
    return {6, val(a.ip6())};
  return {};
}
inline swoc::IPAddr
mk(Any const &a)
{
  if (a.f == 4)
    return swoc::IPAddr(ip4(a.v));
  if (a.f == 6)
    return swoc::IPAddr(ip6(a.v));
  return {};
}
template <int F> struct Fam;
template <> struct Fam<4> {
  using Addr  = swoc::IP4Addr;
  using Range = swoc::IP4Range;
  using Net   = swoc::IP4Net;
  using Srv   = swoc::IP4Srv;
  static constexpr unsigned W = 32;
  static constexpr u128 MAX   = 0xFFFFFFFFu;
  static constexpr int AF     = AF_INET;
  static Addr make(u128 v) { return ip4(v); }
};
template <> struct Fam<6> {
  using Addr  = swoc::IP6Addr;
  using Range = swoc::IP6Range;
  using Net   = swoc::IP6Net;
  using Srv   = swoc::IP6Srv;
  static constexpr unsigned W = 128;
  static constexpr u128 MAX   = MAX128;
  static constexpr int AF     = AF_INET6;
  static Addr make(u128 v) { return ip6(v); }
};
inline unsigned
width(int f)
{
  return f == 4 ? 32 : 128;
}
inline u128
max_of(int f)
{
  return f == 4 ? Fam<4>::MAX : Fam<6>::MAX;
}
/// Mask with the top n of w bits.
inline u128
mask_bits(unsigned n, unsigned w)
{
  u128 all = w == 128 ? MAX128 : (u128(1) << w) - 1;
  if (n == 0)
    return 0;
  if (n >= w)
    return all;
  return all & ~((u128(1) << (w - n)) - 1);
}
/// Canonical text. The C library, except for using the hex form for all IPv6 addresses.
inline std::string
text(int f, u128 v)
{
  char buff[INET6_ADDRSTRLEN];
  if (f == 4) {
    in_addr a;
    a.s_addr = htonl(uint32_t(v));
    return inet_ntop(AF_INET, &a, buff, sizeof buff);
  }
  in6_addr a    = raw6(v);
  std::string s = inet_ntop(AF_INET6, &a, buff, sizeof buff);
  if (s.find('.') != s.npos) { // first six quads are 0 or the last of those is FFFF, others aren't all 0.
    unsigned q5 = unsigned(v >> 32 & 0xffff), q6 = unsigned(v >> 16 & 0xffff), q7 = unsigned(v & 0xffff);
    if (q5)
      snprintf(buff, sizeof buff, "::%x:%x:%x", q5, q6, q7);
    else
      snprintf(buff, sizeof buff, "::%x:%x", q6, q7);
    s = buff;
  }
  return s;
}
/// Address values where something interesting could be near.
inline u128
gen_value(pbt::Src &g, int f)
{
  unsigned w = width(f);
  u128 all   = max_of(f);
  u128 v     = 0;
  switch (g.weighted({3, 3, 3, 2, 2, 2})) {
  case 0: // small
    v = g.small(300);
    break;
  case 1: // by octets, many of them 0 or FF
    for (unsigned i = 0; i < w / 8; ++i) {
      unsigned o = unsigned(g.weighted({4, 2, 1}));
      v          = v << 8 | (o == 0 ? 0 : o == 1 ? g.draw(255) : 255);
    }
    break;
  case 2: { // near a power of 2
    unsigned b = unsigned(g.draw(w - 1));
    v          = (u128(1) << b) + u128(g.draw(4)) - 2;
    break;
  }
  case 3: // near the top.
    v = all - g.small(300);
    break;
  case 4: // uniform.
    v = u128(g.draw(~uint64_t(0))) << 64 | g.draw(~uint64_t(0));
    break;
  case 5: { // prefix mask, or a prefix and an edge
    unsigned n = unsigned(g.draw(w));
    v          = (u128(g.draw(~uint64_t(0))) << 64 | g.draw(~uint64_t(0))) & mask_bits(n, w);
    if (g.flip())
      v |= ~mask_bits(n, w);
    break;
  }
  }
  return v & all;
}
/// Values for the special nets.
inline u128
gen_special(pbt::Src &g, int f)
{
  u128 v;
  if (f == 4) {
    uint32_t base = g.pick({0x7f000000u, 0x0a000000u, 0x64400000u, 0xac100000u, 0xc0a80000u, 0xa9fe0000u, 0xe0000000u, 0xf0000000u});
    v             = base + (g.flip() ? uint32_t(g.draw(0xFFFFFF)) : uint32_t(g.draw(0x1fffff)) - 0x100000u);
    if (g.chance(30))
      v = base + uint32_t(g.draw(4)) - 2;
  } else {
    u128 base = u128(g.pick({0xfe80ull, 0xfec0ull, 0xfc00ull, 0xfe00ull, 0xff00ull, 0xffffull, 0x0000ull})) << 112;
    v         = base + (g.flip() ? u128(g.draw(4)) - 2 : u128(g.draw(~uint64_t(0))) << 60);
    if (g.chance(10))
      v = g.draw(3);
  }
  return v & max_of(f);
}
inline Any
gen_any(pbt::Src &g, bool invalid_p = true)
{
  Any a;
  unsigned k = g.weighted({4, 4, invalid_p ? 1u : 0u});
  a.f        = k == 0 ? 4 : k == 1 ? 6 : 0;
  if (a.f)
    a.v = gen_value(g, a.f);
  return a;
}
template <typename... A>
std::string
print(swoc::TextView fmt, A const &...a)
{
  std::string s;
  swoc::bwprint(s, fmt, a...);
  return s;
}
/// A different value, not far away.
inline u128
nearby(pbt::Src &g, int f, u128 v)
{
  u128 m     = max_of(f);
  unsigned w = width(f);
  switch (g.draw(3)) {
  case 0:
    return v;
  case 1:
    return (v + u128(g.draw(4)) - 2) & m;
  case 2:
    return (v ^ (u128(1) << g.draw(w - 1))) & m;
  }
  return f == 6 ? (v + (u128(1) << 64)) & m : (v + (1u << 16)) & m;
}
