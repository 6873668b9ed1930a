// N03 - masks and networks.
#include "ip_util.h"
using pbt::Src;
using namespace swoc;

namespace
{
unsigned
lead_ones(u128 v, unsigned w)
{
  unsigned n = 0;
  while (n < w && v >> (w - 1 - n) & 1)
    ++n;
  return n;
}
bool
is_mask(u128 v, unsigned w)
{
  return v == mask_bits(lead_ones(v, w), w);
}
unsigned
gen_width(Src &g, unsigned w)
{
  return g.flip() ? unsigned(g.draw(w)) : unsigned(g.pick({0u, 1u, w / 2 - 1, w / 2, w / 2 + 1, w - 1, w, 8u, 31u, 32u}));
}
template <int F>
void
net(Src &g)
{
  using T      = Fam<F>;
  using A      = typename T::Addr;
  using N      = typename T::Net;
  u128 v       = gen_value(g, F);
  unsigned w   = gen_width(g, T::W);
  u128 m       = mask_bits(w, T::W);
  u128 lo      = v & m, hi = (v | ~m) & T::MAX;
  A a          = T::make(v);
  IPMask mask  = IPMask(IPMask::raw_type(w));
  g.note("v", F, " ", show(v), "/", w);
  g.nontrivial(w > 0 && w < T::W && lo != v);
  g.label("zero width", w == 0);
  g.label("full width", w == T::W);

  // mask
  REQ_EQ(unsigned(mask.width()), w, "width");
  REQ(mask.is_valid(), "valid");
  if constexpr (F == 4)
    REQ_EQ(val(mask.as_ip4()), m, "as address");
  REQ_EQ(val(mask.as_ip6()), mask_bits(w, 128), "as IPv6 address");
  REQ_EQ(unsigned(IPMask::mask_for(T::make(m)).width()), w, "mask_for a mask address");
  REQ_EQ(unsigned(IPMask::mask_for(IPAddr(T::make(m))).width()), w, "mask_for a generic mask address");
  unsigned low = 0; // lowest one bit.
  while (low < T::W && !(v >> low & 1))
    ++low;
  REQ_EQ(unsigned(IPMask::mask_for(a).width()), T::W - low, "mask_for an address - through the last one bit");
  REQ(!IPMask::mask_for(IPAddr{}).is_valid(), "mask_for invalid address");
  REQ_EQ(val(a & mask), lo, "and");
  REQ_EQ(val(a | mask), hi, "or");
  REQ(val(IPAddr(a) & mask) == (Any{F, lo}), "generic and");
  REQ(val(IPAddr(a) | mask) == (Any{F, hi}), "generic or");
  A b = a;
  REQ(&(b &= mask) == &b && val(b) == lo, "and assign");
  b = a;
  REQ(&(b |= mask) == &b && val(b) == hi, "or assign");

  // network.
  N net(a, mask);
  auto checks = [&](N const &n, char const *how) {
    REQ_EQ(val(n.min()), lo, how, " min");
    REQ_EQ(val(n.max()), hi, how, " max");
    REQ_EQ(unsigned(n.mask().width()), w, how, " mask");
    REQ(!n.empty(), how, " empty");
    REQ(n == net && !(n != net), how, " equal");
    REQ(val(std::get<0>(std::make_tuple(get<0>(n)))) == lo && get<1>(n).width() == w, how, " tuple");
  };
  auto checkg = [&](IPNet const &n, char const *how) {
    REQ(val(n.min()) == (Any{F, lo}), how, " generic min");
    REQ(val(n.max()) == (Any{F, hi}), how, " generic max");
    REQ_EQ(unsigned(n.mask().width()), w, how, " generic mask");
    REQ_EQ(unsigned(n.width()), w, how, " generic width");
    REQ(!n.empty(), how, " generic empty");
    REQ_EQ(n.is_ip4(), F == 4, how);
    REQ_EQ(n.is_ip6(), F == 6, how);
    REQ_EQ(n.family(), T::AF, how);
    REQ(n == net && net == n, how, " generic equal");
    if constexpr (F == 4)
      REQ(n.ip4() == net, how, " ip4");
    else
      REQ(n.ip6() == net, how, " ip6");
    REQ(get<0>(n) == n.min() && get<1>(n).width() == w, how, " generic tuple");
  };
  checks(net, "construct");
  N n2{T::make(gen_value(g, F)), IPMask(3)};
  n2.assign(a, mask);
  checks(n2, "assign");
  IPNet gn{IPAddr(a), mask};
  checkg(gn, "construct");
  IPNet gn2{mk(gen_any(g)), IPMask(7)};
  gn2.assign(IPAddr(a), mask);
  checkg(gn2, "assign");
  REQ(gn == gn2 && !(gn != gn2), "generic equal");

  // membership is prefix equality.
  auto range   = net.as_range();
  auto grange  = gn.as_range();
  typename T::Range ar;
  ar.assign(a, mask);
  REQ(range == ar, "range assigned from address and mask");
  REQ(range.min() == net.min() && range.max() == net.max(), "range limits");
  for (int i = 0; i < 4; ++i) {
    u128 x = i == 0 ? nearby(g, F, lo) : i == 1 ? nearby(g, F, hi) : i == 2 ? v ^ (u128(1) << g.draw(T::W - 1)) : gen_value(g, F);
    bool in = ((x ^ v) & m) == 0;
    REQ_EQ(range.contains(T::make(x)), in, "member ", show(x));
    REQ_EQ(grange.contains(T::make(x)), in, "generic member ", show(x));
    REQ_EQ(grange.contains(IPAddr(T::make(x))), in, "generic member ", show(x));
    REQ_EQ((T::make(x) & mask) == net.min(), in, "masked");
    g.label("outside", !in);
  }
  // a different network
  u128 v2     = nearby(g, F, v);
  unsigned w2 = g.flip() ? w : gen_width(g, T::W);
  N other(T::make(v2), IPMask(IPMask::raw_type(w2)));
  bool same = w == w2 && (v2 & m) == lo;
  REQ_EQ(net == other, same, "network equality");
  REQ_EQ(net != other, !same, "network inequality");
  IPNet gother(IPAddr(T::make(v2)), IPMask(IPMask::raw_type(w2)));
  REQ_EQ(gn == gother, same, "generic network equality");
  REQ_EQ(gn != gother, !same, "generic network inequality");
  REQ_EQ(gn == other, same, "generic and specific network equality");
  REQ_EQ(other == gn, same, "specific and generic network equality");
  { // the other family, with the same bits.
    constexpr int O = F == 4 ? 6 : 4;
    using TO        = Fam<O>;
    u128 vo         = F == 4 && g.flip() ? (u128(0xFFFF) << 32) | v : v & TO::MAX;
    typename TO::Net x(TO::make(vo), IPMask(IPMask::raw_type(std::min<unsigned>(w, TO::W))));
    IPNet gx(IPAddr(TO::make(vo)), IPMask(IPMask::raw_type(std::min<unsigned>(w, TO::W))));
    REQ(!(gn == x) && !(x == gn) && !(gn == gx) && gn != gx, "networks of different families are equal");
    REQ(!(IPNet() == x) && !(x == IPNet()) && !(IPNet() == net) && !(net == IPNet()), "no network is equal to a network");
  }
  REQ_EQ(mask == IPMask(IPMask::raw_type(w2)), w == w2, "mask equality");
  REQ_EQ(mask != IPMask(IPMask::raw_type(w2)), w != w2, "mask inequality");
  REQ_EQ(mask < IPMask(IPMask::raw_type(w2)), w < w2, "mask order");

  // print and parse
  std::string s = print("{}", net);
  REQ(s.find('/') != s.npos && s.substr(s.find('/') + 1) == std::to_string(w), "printed width ", s);
  REQ_EQ(s.substr(0, s.find('/')), print("{}", net.min()), "printed address");
  REQ_EQ(print("{}", gn), s, "generic text");
  REQ_EQ(print("{}", mask), std::to_string(w), "mask text");
  N n3{T::make(1), IPMask(3)};
  REQ(n3.load(s), "load ", s);
  checks(n3, "load");
  checks(N(TextView(s)), "construct from text");
  IPNet gn3{mk(gen_any(g)), IPMask(3)};
  REQ(gn3.load(s), "generic load ", s);
  checkg(gn3, "load");
  IPMask pm;
  REQ(pm.load(std::to_string(w)) && pm == mask, "mask load");
  pm.clear();
  REQ(!pm.is_valid() && !IPMask().is_valid(), "cleared mask");
  n3.clear();
  gn3.clear();
  REQ(n3.empty() && gn3.empty() && N().empty() && IPNet().empty(), "cleared network");
}
} // namespace

PROPERTY(net4, 3, "partial prefix, and bits set past it")
{
  net<4>(g);
}
PROPERTY(net6, 3, "partial prefix, and bits set past it")
{
  net<6>(g);
}

PROPERTY(shift, 1, "limited by neither end")
{
  unsigned w = gen_width(g, 128);
  unsigned n = g.flip() ? unsigned(g.draw(255)) : unsigned(g.draw(8));
  g.nontrivial(n && n <= w && n + w <= 128);
  IPMask m{IPMask::raw_type(w)};
  IPMask &r = (m <<= IPMask::raw_type(n));
  REQ(&r == &m, "result");
  REQ_EQ(unsigned(m.width()), n > w ? 0 : w - n, "wider ", w, " by ", n);
  m = IPMask{IPMask::raw_type(w)};
  m >>= IPMask::raw_type(n);
  REQ_EQ(unsigned(m.width()), std::min(128u, n + w), "narrower ", w, " by ", n);
  IPMask x;
  x <<= IPMask::raw_type(n);
  REQ(!x.is_valid(), "shift of an invalid mask");
  x >>= IPMask::raw_type(n);
  REQ(!x.is_valid(), "shift of an invalid mask");
}

PROPERTY(load, 4, "text has an address and something after the slash")
{
  int f        = g.flip() ? 6 : 4;
  unsigned w   = width(f);
  u128 v       = gen_value(g, f);
  bool good_a  = true;
  std::string at = text(f, v);
  if (f == 6 && at.find('.') != at.npos) // embedded IPv4, not a supported form
    g.discard();
  if (g.chance(10)) {
    at += g.pick({"g", ".", ":", ".9", ":::"});
    good_a = false;
    Any dummy;
    IPAddr z;
    in6_addr r6;
    in_addr r4;
    if (inet_pton(AF_INET6, at.c_str(), &r6) == 1 || inet_aton(at.c_str(), &r4))
      g.discard();
  }
  std::string mt;
  int width_m  = -1; // expected
  bool slash   = true;
  switch (g.weighted({4, 4, 2, 2, 1, 1})) {
  case 0: { // number
    unsigned n = g.flip() ? gen_width(g, w) : unsigned(g.pick({w + 1, 33u, 64u, 128u, 129u, 254u, 255u, 256u, 257u, 288u, 512u, 65536u}));
    mt         = std::to_string(n);
    width_m    = n <= w ? int(n) : -1;
    break;
  }
  case 1: { // mask address.
    unsigned n = gen_width(g, w);
    u128 m     = mask_bits(n, w);
    if (g.chance(40))
      m ^= u128(1) << g.draw(w - 1);
    mt = text(f, m);
    if (mt.find('.') != mt.npos && f == 6)
      g.discard();
    width_m = is_mask(m, w) ? int(lead_ones(m, w)) : -1;
    g.label("mask address", width_m >= 0);
    break;
  }
  case 2: { // mask address of the other family.
    int f2     = f == 4 ? 6 : 4;
    unsigned n = gen_width(g, width(f2));
    mt         = text(f2, mask_bits(n, width(f2)));
    break;
  }
  case 3: // not a number
    mt = g.pick({"-1", "+8", "8x", "x8", "1e1", "8.", "/8", "", " ", "2 4", "8/", "24-", "9999999999999999999999", "18446744073709551624", "4294967304"});
    break;
  case 4:
    slash = false;
    break;
  case 5: { // huge
    uint64_t n = g.edgy() | 1024;
    mt         = std::to_string(n);
    if (f == 4 && n <= Fam<4>::MAX && is_mask(n, 32)) // an address can be a single number
      width_m = int(lead_ones(n, 32));
    break;
  }
  }
  std::string s = at + (slash ? "/" : "") + mt;
  g.note("text ", pbt::esc(s));
  bool good = good_a && slash && width_m >= 0;
  g.nontrivial(slash && !mt.empty());
  g.label("accepted", good);
  Exact x(s);
  IP4Net n4{ip4(0x01020304), IPMask(24)};
  IP6Net n6{ip6(5), IPMask(24)};
  IPNet n{mk(gen_any(g, false)), IPMask(16)};
  bool r4 = n4.load(x.view()), r6 = n6.load(x.view()), r = n.load(x.view());
  REQ_EQ(r4, good && f == 4, "IPv4 load of \"", pbt::esc(s), '"');
  REQ_EQ(r6, good && f == 6, "IPv6 load of \"", pbt::esc(s), '"');
  REQ_EQ(r, good, "load of \"", pbt::esc(s), '"');
  REQ_EQ(n4.empty(), !r4, "IPv4 empty after failure");
  REQ_EQ(n6.empty(), !r6, "IPv6 empty after failure");
  REQ_EQ(n.empty(), !r, "empty after failure");
  if (good) {
    u128 m = mask_bits(unsigned(width_m), w);
    REQ_EQ(int(n.width()), width_m, "width");
    REQ(val(n.min()) == (Any{f, v & m}), "min");
    REQ(val(n.max()) == (Any{f, (v | ~m) & max_of(f)}), "max");
    if (f == 4)
      REQ(n == n4, "generic differs from IPv4");
    else
      REQ(n == n6, "generic differs from IPv6");
  }
  if (mt.find('.') == mt.npos && mt.find(':') == mt.npos && (mt.empty() || !isspace((unsigned char)mt[0]))) { // the mask by itself
    IPMask m;
    bool num = !mt.empty() && mt.size() < 4 && mt.find_first_not_of("0123456789") == mt.npos && std::stoi(mt) <= 128;
    REQ_EQ(m.load(mt), num, "mask load of \"", pbt::esc(mt), '"');
    if (num)
      REQ_EQ(std::to_string(m.width()), mt, "mask width");
  }
}
