// N05 - decomposition of ranges in to networks.
#include "ip_util.h"
using pbt::Src;
using namespace swoc;

namespace
{
struct NetM {
  u128 a;
  unsigned w;
};
/// Minimal cover of [lo,hi] - repeatedly the largest aligned block that starts at the bottom and fits.
std::vector<NetM>
cover(u128 lo, u128 hi, unsigned w)
{
  std::vector<NetM> z;
  for (;;) {
    unsigned k = 0; // block of 2^k addresses
    while (k < w) {
      u128 low = k + 1 == 128 ? MAX128 : (u128(1) << (k + 1)) - 1;
      if ((lo & low) || hi - lo < low)
        break;
      ++k;
    }
    z.push_back({lo, w - k});
    u128 last = lo + (k == 128 ? MAX128 : (u128(1) << k) - 1);
    if (last >= hi)
      break;
    lo = last + 1;
  }
  return z;
}
/// Minimum number of prefixes needed, by recursion from the top, which is independent of the above.
size_t
minimal(u128 lo, u128 hi, u128 base, unsigned bits)
{
  u128 size = bits == 128 ? MAX128 : (u128(1) << bits) - 1;
  u128 top  = base + size;
  if (hi < base || lo > top)
    return 0;
  if (lo <= base && top <= hi)
    return 1;
  u128 half = u128(1) << (bits - 1);
  return minimal(lo, hi, base, bits - 1) + minimal(lo, hi, base + half, bits - 1);
}
u128
end_value(Src &g, int f)
{
  // mix of long runs of ones and zeros.
  u128 v = gen_value(g, f);
  if (g.flip()) {
    unsigned n = unsigned(g.draw(width(f)));
    v          = g.flip() ? v & mask_bits(n, width(f)) : (v | ~mask_bits(n, width(f))) & max_of(f);
  }
  return v;
}
template <int F>
void
run(Src &g)
{
  using T  = Fam<F>;
  using R  = typename T::Range;
  u128 lo  = end_value(g, F), hi = lo;
  switch (g.draw(3)) {
  case 0:
    hi = end_value(g, F);
    break;
  case 1: { // a block and a bit.
    unsigned n = unsigned(g.draw(T::W));
    u128 k     = mask_bits(n, T::W);
    hi         = (lo | ~k) & T::MAX;
    lo &= k;
    if (g.flip() && hi != T::MAX)
      hi += 1;
    if (g.flip() && lo)
      lo -= 1;
    if (g.chance(20))
      hi -= hi > lo;
    break;
  }
  case 2:
    hi = lo + std::min<u128>(g.small(1000), T::MAX - lo);
    break;
  case 3:
    (g.flip() ? lo : hi) = g.flip() ? 0 : T::MAX;
    break;
  }
  if (lo > hi)
    std::swap(lo, hi);
  g.note("v", F, " ", show(lo), " - ", show(hi));
  auto want = cover(lo, hi, T::W);
  REQ_EQ(want.size(), minimal(lo, hi, 0, T::W), "harness - cover isn't minimal");
  g.nontrivial(want.size() > 1);
  g.label("single network", want.size() == 1);
  g.label("widens and narrows", want.size() > 3 && want.front().w > want[1].w && want.back().w > want[1].w);
  g.label("to the top", hi == T::MAX);
  g.label("from the bottom", lo == 0);

  R r{T::make(lo), T::make(hi)};
  size_t i = 0;
  for (auto const &net : r.networks()) {
    REQ(i < want.size(), "too many networks, extra ", show(val(net.min())), "/", int(net.mask().width()));
    REQ_EQ(val(net.min()), want[i].a, "network ", i);
    REQ_EQ(unsigned(net.mask().width()), want[i].w, "width of network ", i);
    ++i;
  }
  REQ_EQ(i, want.size(), "number of networks");
  // as an iterator
  auto nets = r.networks();
  i         = 0;
  for (auto spot = nets.begin(), limit = nets.end(); spot != limit; ++i) {
    REQ(i < want.size(), "too many networks");
    REQ(!spot.empty() && !(spot == limit), "end early");
    REQ_EQ(val(spot->addr()), want[i].a, "iterator address");
    REQ_EQ(unsigned(spot->mask().width()), want[i].w, "iterator mask");
    REQ(spot == spot && (*spot).as_range().max() <= r.max(), "inside the range");
    if (g.flip()) {
      auto old = spot++;
      REQ_EQ(val(old.addr()), want[i].a, "post increment");
      REQ(!(old == spot), "post increment result is the same");
    } else {
      auto &self = ++spot;
      REQ(&self == &spot, "pre increment result");
    }
  }
  REQ_EQ(i, want.size(), "number by iterator");
  // generic
  IPRange gr{r};
  IPRangeView v;
  v.assign(r);
  for (int way = 0; way < 2; ++way) {
    auto gnets = way ? v.networks() : gr.networks();
    i          = 0;
    for (auto spot = gnets.begin(), limit = gnets.end(); spot != limit; ++i) {
      REQ(i < want.size(), "too many generic networks");
      IPNet n = *spot;
      REQ(val(n.min()) == (Any{F, want[i].a}) && n.width() == want[i].w, "generic network ", i);
      REQ(val(spot->addr()) == (Any{F, want[i].a}) && spot->mask().width() == want[i].w, "generic iterator ", i);
      if (g.flip()) {
        auto old = spot++;
        REQ(val(old.addr()) == (Any{F, want[i].a}), "generic post increment");
      } else
        ++spot;
    }
    REQ_EQ(i, want.size(), "number of generic networks");
  }
  // network_mask
  IPMask m = r.network_mask();
  REQ_EQ(m.is_valid(), want.size() == 1, "network_mask valid");
  if (want.size() == 1)
    REQ_EQ(unsigned(m.width()), want[0].w, "network_mask");
  REQ(gr.network_mask() == m, "generic network_mask");

  // Empty - no networks.
  if (g.chance(10)) {
    R none;
    REQ(none.networks().begin() == none.networks().end() && none.networks().empty(), "networks of an empty range");
    IPRange gnone{none}, invalid;
    REQ(gnone.networks().begin() == gnone.networks().end(), "generic networks of an empty range");
    REQ(invalid.networks().begin() == invalid.networks().end(), "networks of an invalid range");
    REQ(IPRangeView().networks().begin() == IPRangeView().networks().end(), "networks of an invalid view");
    REQ(!none.network_mask().is_valid() && !invalid.network_mask().is_valid(), "mask of an empty range");
  }
}
} // namespace

PROPERTY(networks4, 3, "more than one network")
{
  run<4>(g);
}
PROPERTY(networks6, 3, "more than one network")
{
  run<6>(g);
}
