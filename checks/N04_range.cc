// N04 - address ranges.
#include "ip_util.h"
using pbt::Src;
using namespace swoc;

namespace
{
struct Model {
  int f = 0;
  u128 lo = 1, hi = 0;
  bool
  empty() const
  {
    return f == 0 || lo > hi;
  }
  bool
  has(Any const &a) const
  {
    return f && a.f == f && lo <= a.v && a.v <= hi;
  }
};
Model
gen_range(Src &g, int f)
{
  Model m;
  m.f  = f;
  m.lo = gen_value(g, f);
  switch (g.draw(4)) {
  case 0:
    m.hi = gen_value(g, f);
    break;
  case 1:
    m.hi = m.lo;
    break;
  case 2:
    m.hi = nearby(g, f, m.lo);
    break;
  case 3: { // a net
    u128 k = mask_bits(unsigned(g.draw(width(f))), width(f));
    m.hi   = (m.lo | ~k) & max_of(f);
    m.lo &= k;
    if (g.chance(15))
      m.hi -= m.hi > m.lo;
    break;
  }
  case 4:
    m.hi = m.lo + std::min<u128>(g.small(100000), max_of(f) - m.lo);
    break;
  }
  if (m.lo > m.hi)
    std::swap(m.lo, m.hi);
  return m;
}
template <int F>
typename Fam<F>::Range
make(Model const &m)
{
  return {Fam<F>::make(m.lo), Fam<F>::make(m.hi)};
}
IPRange
mk(Model const &m)
{
  if (m.f == 4)
    return make<4>(m);
  if (m.f == 6)
    return make<6>(m);
  return {};
}
/// width of the network this is, or -1
int
net_width(Model const &m)
{
  unsigned w = width(m.f);
  u128 x     = m.lo ^ m.hi; // must be a low mask, and not in lo
  if (x & (x + 1) || m.lo & x)
    return -1;
  int n = int(w);
  for (; x; x >>= 1)
    --n;
  return n;
}

void
check_generic(IPRange const &r, Model const &m, char const *how)
{
  REQ_EQ(r.is_ip4(), m.f == 4, how);
  REQ_EQ(r.is_ip6(), m.f == 6, how);
  REQ_EQ(r.family(), m.f == 4 ? AF_INET : m.f == 6 ? AF_INET6 : AF_UNSPEC, how);
  REQ(r.is(m.f == 4 ? AF_INET : m.f == 6 ? AF_INET6 : AF_UNSPEC), how);
  REQ_EQ(r.empty(), m.empty(), how, " empty");
  if (m.f) {
    REQ(val(r.min()) == (Any{m.f, m.lo}), how, " min");
    REQ(val(r.max()) == (Any{m.f, m.hi}), how, " max");
  } else {
    REQ(!r.min().is_valid() && !r.max().is_valid(), how, " limits of invalid range");
  }
}
template <int F>
void
family(Src &g)
{
  using T   = Fam<F>;
  using R   = typename T::Range;
  Model m   = gen_range(g, F);
  bool none = g.chance(5);
  if (none)
    m.lo = T::MAX, m.hi = 0;
  R r       = make<F>(m);
  if (none)
    r = R{}, m.lo = val(r.min()), m.hi = val(r.max());
  g.note("v", F, " ", show(m.lo), " - ", show(m.hi));
  IPRange gr = mk(m);
  g.nontrivial(!none && m.lo != m.hi);
  int w = none ? -1 : net_width(m);
  g.label("network", w >= 0 && m.lo != m.hi);
  g.label("empty", none);
  g.label("singleton", m.lo == m.hi);

  // construction
  REQ(val(r.min()) == m.lo && val(r.max()) == m.hi, "limits");
  REQ_EQ(r.empty(), none, "empty");
  REQ_EQ(r.is_singleton(), m.lo == m.hi, "singleton");
  REQ_EQ(r.family(), T::AF, "family");
  check_generic(gr, m, "from range");
  check_generic(IPRange(T::make(m.lo), T::make(m.hi)), m, "from addresses");
  check_generic(IPRange(IPAddr(T::make(m.lo)), IPAddr(T::make(m.hi))), m, "from generic addresses");
  Model single{F, m.lo, m.lo};
  check_generic(IPRange(T::make(m.lo)), single, "from one address");
  check_generic(IPRange(IPAddr(T::make(m.lo))), single, "from one generic address");
  IPRange a2 = mk(gen_range(g, g.flip() ? 6 : 4));
  a2.assign(T::make(m.lo), T::make(m.hi));
  check_generic(a2, m, "assign");
  IPRangeView v;
  REQ(!v.valid() && v.empty(), "default view");
  v.assign(r);
  REQ(v.valid() && v.is_ip4() == (F == 4) && v.is_ip6() == (F == 6) && v.is(T::AF) && v.empty() == none, "view");
  REQ(val(v.min()) == (Any{F, m.lo}) && val(v.max()) == (Any{F, m.hi}), "view limits");
  check_generic(IPRange(v), m, "from view");
  IPRange a3 = mk(gen_range(g, g.flip() ? 6 : 4));
  a3         = v;
  check_generic(a3, m, "assign from view");
  if (g.chance(20)) {
    a3 = IPRangeView{};
    check_generic(a3, Model{}, "assign from invalid view");
  }
  REQ(v == gr, "view of equal range");
  if (!none) {
    // masks
    u128 k     = mask_bits(unsigned(g.draw(T::W)), T::W);
    unsigned n = 0;
    while (n < T::W && k >> (T::W - 1 - n) & 1)
      ++n;
    R mr = make<F>(gen_range(g, F));
    REQ(&mr.assign(T::make(m.lo), IPMask(IPMask::raw_type(n))) == &mr, "assign result");
    if constexpr (F == 4)
      REQ(R(T::make(m.lo), IPMask(IPMask::raw_type(n))) == mr, "constructed from address and mask ", n);
    REQ_EQ(val(mr.min()), m.lo & k, "min of address with mask ", n);
    REQ_EQ(val(mr.max()), (m.lo | ~k) & T::MAX, "max of address with mask ", n);
    // network?
    IPMask nm = r.network_mask();
    REQ_EQ(nm.is_valid(), w >= 0, "is a network");
    if (w >= 0)
      REQ_EQ(int(nm.width()), w, "network mask");
    REQ(gr.network_mask() == nm, "generic network mask");
  }

  // text
  std::string lo = text(F, m.lo), hi = text(F, m.hi);
  std::string want = none ? "*-*" : lo + '-' + hi;
  REQ_EQ(print("{}", r), want, "text");
  REQ_EQ(print("{}", gr), want, "generic text");
  REQ_EQ(print("{}", v), want, "view text");
  std::ostringstream os;
  os << r << '|' << gr;
  REQ_EQ(os.str(), want + '|' + want, "ostream");
  std::string compact = none ? "*-*" : m.lo == m.hi ? lo : w >= 0 ? lo + '/' + std::to_string(w) : want;
  REQ_EQ(print("{::c}", r), compact, "compact text");
  REQ_EQ(print("{::c}", gr), compact, "generic compact text");
  REQ_EQ(print("{::c}", v), compact, "view compact text");
  unsigned fw      = unsigned(g.draw(90));
  std::string wide = compact;
  while (wide.size() < fw)
    wide.insert(wide.begin(), '.');
  REQ_EQ(print("{:.>" + std::to_string(fw) + ":c}", gr), wide, "aligned text, width ", fw);
  if (!none) {
    for (auto const &s : {want, compact}) {
      R p = make<F>(gen_range(g, F));
      REQ(p.load(s), "load ", s);
      REQ(p == r && !(p != r), "loaded ", s);
      REQ(R(s) == r, "constructed from ", s);
      IPRange gp = mk(gen_range(g, g.flip() ? 6 : 4));
      REQ(gp.load(s), "generic load ", s);
      check_generic(gp, m, "generic load");
      REQ(IPRange(s) == gr && !(gp != gr), "generic equality");
    }
  }
  // membership
  for (int i = 0; i < 4; ++i) {
    Any x{g.chance(15) ? 10 - F : F, 0};
    x.v     = i == 0 ? nearby(g, F, m.lo) : i == 1 ? nearby(g, F, m.hi) : gen_value(g, F);
    x.v &= max_of(x.f);
    bool in = m.has(x);
    if (x.f == F)
      REQ_EQ(r.contains(T::make(x.v)), in, "contains ", show(x.v));
    REQ_EQ(gr.contains(mk(x)), in, "generic contains ", show(x.v));
    REQ_EQ(v.contains(mk(x)), in, "view contains ", show(x.v));
    if (x.f == 4)
      REQ(gr.contains(ip4(x.v)) == in && v.contains(ip4(x.v)) == in, "contains IPv4 ", show(x.v));
    else
      REQ(gr.contains(ip6(x.v)) == in && v.contains(ip6(x.v)) == in, "contains IPv6 ", show(x.v));
    REQ(!gr.contains(IPAddr{}) && !v.contains(IPAddr{}) && !IPRange().contains(mk(x)), "invalid address or range");
  }
  // another range.
  if (!none) {
    Model q = gen_range(g, F);
    switch (g.draw(4)) {
    case 1: // right after or before
      if (m.hi != T::MAX) {
        q.lo = m.hi + 1;
        q.hi = std::max(q.hi, q.lo);
      }
      break;
    case 2:
      if (m.lo) {
        q.hi = m.lo - 1;
        q.lo = std::min(q.hi, q.lo);
      }
      break;
    case 3: // around an end
      q.lo = nearby(g, F, m.hi);
      q.hi = std::max(q.hi, q.lo);
      break;
    case 4:
      q = m;
      if (g.flip())
        q.hi = std::max(q.lo, nearby(g, F, q.hi));
      break;
    }
    g.note("other ", show(q.lo), " - ", show(q.hi));
    R s         = make<F>(q);
    bool both   = m.lo <= q.hi && q.lo <= m.hi;
    bool l_adj  = m.hi != T::MAX && m.hi + 1 == q.lo, r_adj = q.hi != T::MAX && q.hi + 1 == m.lo;
    g.label("overlap", both);
    g.label("adjacent", l_adj || r_adj);
    REQ_EQ(r.has_intersection_with(s), both, "has_intersection_with");
    REQ_EQ(r.is_left_adjacent_to(s), l_adj, "is_left_adjacent_to");
    REQ_EQ(r.is_adjacent_to(s), l_adj || r_adj, "is_adjacent_to");
    REQ_EQ(r.has_union(s), both || l_adj || r_adj, "has_union");
    REQ_EQ(r.is_superset_of(s), m.lo <= q.lo && q.hi <= m.hi, "superset");
    REQ_EQ(r.is_subset_of(s), q.lo <= m.lo && m.hi <= q.hi, "subset");
    R x = r.intersection(s);
    REQ_EQ(x.empty(), !both, "intersection");
    if (both)
      REQ(val(x.min()) == std::max(m.lo, q.lo) && val(x.max()) == std::min(m.hi, q.hi), "intersection");
    R h = r.hull(s);
    REQ(val(h.min()) == std::min(m.lo, q.lo) && val(h.max()) == std::max(m.hi, q.hi), "hull");
    bool eq = m.lo == q.lo && m.hi == q.hi;
    REQ(((r == s) == eq) && ((gr == mk(q)) == eq) && ((gr != mk(q)) == !eq) && ((v == mk(q)) == eq), "equality");
    IPRangeView v2;
    v2.assign(s);
    REQ((v == v2) == eq && (v != v2) == !eq, "view equality");
    // never equal to the other family.
    Model o{10 - F, m.lo & max_of(10 - F), m.hi & max_of(10 - F)};
    if (o.lo <= o.hi) {
      REQ(!(gr == mk(o)) && gr != mk(o) && !(v == mk(o)), "equal across families");
      IPRange go = mk(o);
      IPRangeView vo;
      if (F == 6)
        vo.assign(go.ip4());
      else
        vo.assign(go.ip6());
      REQ(!(v == vo) && v != vo && !(vo == gr), "views equal across families");
      REQ(!(IPRange{} == gr) && IPRange{} != gr && !(gr == IPRange{}) && !(v == IPRange{}) && !(IPRangeView{} == v) && !(IPRangeView{} == gr),
          "equal to invalid");
      REQ(IPRange{} == IPRange{} && IPRangeView{} == IPRangeView{} && IPRangeView{} == IPRange{}, "invalid ranges are equal");
      IPRange mixed{IPAddr(T::make(m.lo)), mk(Any{o.f, o.hi})};
      REQ(mixed.empty() && mixed.family() == AF_UNSPEC, "mixed family range");
    }
  }
}
} // namespace

PROPERTY(range4, 3, "more than one address")
{
  family<4>(g);
}
PROPERTY(range6, 3, "more than one address")
{
  family<6>(g);
}

PROPERTY(load, 4, "accepted, or rejected by one defect")
{
  int f   = g.flip() ? 6 : 4;
  Model m = gen_range(g, f);
  std::string s;
  Model want = m;
  bool good  = true;
  switch (g.weighted({4, 4, 2})) {
  case 0:
    s = text(f, m.lo) + '-' + text(f, m.hi);
    break;
  case 1: {
    unsigned n = g.chance(75) ? unsigned(g.draw(width(f))) : unsigned(g.pick({width(f) + 1, 64u, 96u, 128u, 129u, 255u, 256u, 257u, 65536u}));
    good       = n <= width(f);
    u128 k     = mask_bits(n, width(f));
    s          = text(f, m.lo) + '/' + std::to_string(n);
    want.hi    = (m.lo | ~k) & max_of(f);
    want.lo    = m.lo & k;
    break;
  }
  case 2:
    s       = text(f, m.lo);
    want.hi = want.lo = m.lo;
    break;
  }
  bool defect = false;
  if (g.chance(40)) {
    defect = true;
    std::string t;
    int f2 = 10 - f;
    switch (g.draw(9)) {
    case 0: // mixed
      s = text(f, m.lo) + '-' + text(f2, gen_value(g, f2));
      break;
    case 1:
      s = s.substr(0, s.find_first_of("-/")) + g.pick({"-", "/", "--", "//", "-/", "/-"});
      break;
    case 2:
      s = g.pick({"-", "/"}) + s;
      break;
    case 3:
      s += g.pick({"-", "/", ".", "g", "/24", ":x", "-::", "-1.1.1.1", ",1.1.1.1"});
      break;
    case 4:
      s = text(f, m.lo) + '/' + g.pick({"-1", "+1", "a", "1x", "1.5", "99999999999999999999", "18446744073709551617"});
      break;
    case 5:
      s = g.pick({"", "-", "/", "*-*", "any", "0-", "*", ":", "::g", "1.2.3.4.5", "1.2.3.256", ":::", "1:2:3:4:5:6:7:8:9", "1::2::3"});
      break;
    case 6:
      s = text(f, m.lo) + '-' + text(f, m.hi) + '/' + std::to_string(g.draw(32));
      break;
    case 7:
      s = text(f, m.lo) + '-' + text(f, m.hi) + '-' + text(f, m.hi);
      break;
    case 8: // other family with a mask that's too wide
      s = text(4, uint32_t(m.lo)) + '/' + std::to_string(33 + g.draw(95));
      break;
    case 9:
      s = text(f, m.lo) + "!" + text(f, m.hi);
      break;
    }
    good = false;
    // Some of these can come out as well formed.
    if (s.size() >= 3 && s.compare(s.size() - 3, 3, "-::") == 0 && f == 6)
      g.discard();
    if (s.find("-1.1.1.1") != s.npos && f == 4)
      g.discard();
    if (s.size() >= 3 && s.compare(s.size() - 3, 3, "/24") == 0)
      g.discard();
  }
  g.note("text ", pbt::esc(s));
  g.nontrivial(good || defect);
  g.label("accepted", good);
  Exact x(s);
  IP4Range r4{ip4(0x01020304), ip4(0x02020304)};
  IP6Range r6{ip6(5), ip6(0x555)};
  IPRange r = mk(gen_range(g, g.flip() ? 4 : 6));
  bool b4 = r4.load(x.view()), b6 = r6.load(x.view()), b = r.load(x.view());
  REQ_EQ(b4, good && f == 4, "IPv4 load \"", pbt::esc(s), '"');
  REQ_EQ(b6, good && f == 6, "IPv6 load \"", pbt::esc(s), '"');
  REQ_EQ(b, good, "load \"", pbt::esc(s), '"');
  if (good) {
    check_generic(r, want, "load");
    check_generic(f == 4 ? IPRange(r4) : IPRange(r6), want, "family load");
  } else {
    REQ(r.empty() && !r.is_ip4() && !r.is_ip6(), "invalid after failure");
    REQ(IPRange(x.view()).empty() && IP4Range(x.view()).empty() && IP6Range(x.view()).empty(), "invalid when constructed");
  }
  if (!b4)
    REQ(r4.empty(), "IPv4 empty after failure");
  if (!b6)
    REQ(r6.empty(), "IPv6 empty after failure");
}
