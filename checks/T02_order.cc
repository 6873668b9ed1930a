// T02 - the comparisons of views are total orders consistent with content.
#include "util.h"
#include "swoc/TextView.h"
#include <set>
#include <map>
#include <algorithm>
using swoc::TextView;
using pbt::Src;

namespace
{
int
sgn(int x)
{
  return x < 0 ? -1 : x > 0 ? 1 : 0;
}
char
low(char c)
{
  return c >= 'A' && c <= 'Z' ? char(c + 32) : c;
}
std::string
low(std::string_view s)
{
  std::string r;
  for (char c : s)
    r += low(c);
  return r;
}
// model: lexicographic by unsigned byte, shorter first.
int
cmp(std::string_view a, std::string_view b)
{
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    unsigned char x = a[i], y = b[i];
    if (x != y)
      return x < y ? -1 : 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
std::string
gen(Src &g, bool nul)
{
  if (nul && g.chance(30))
    return g.bytes(24, 6);
  return g.str("aAbBzZ[@`{09 \xe9\xc9\x7f_", 24, 5);
}
// related to @a s
std::string
relative(Src &g, std::string s, bool nul)
{
  switch (g.range(0, 5)) {
  case 0:
    return gen(g, nul);
  case 1:
    return s;
  case 2:
    return s.substr(0, g.draw(s.size()));
  case 3:
    return s + gen(g, nul);
  case 4: // case flip
    for (char &c : s)
      if (g.flip())
        c = (c >= 'A' && c <= 'Z') ? c + 32 : (c >= 'a' && c <= 'z') ? c - 32 : c;
    return s;
  default:
    if (!s.empty()) {
      char &c = s[g.draw(s.size() - 1)];
      c       = char(c ^ (1 << g.draw(7)));
      if (!nul && !c)
        c = 1;
    }
    return s;
  }
}
} // namespace

PROPERTY(sensitive, 5, "the texts are not identical and share a prefix")
{
  g.scaled();
  g.huge();
  std::string a = gen(g, true), b = relative(g, a, true), c = relative(g, b, true);
  g.note("a \"", pbt::esc(a), "\" b \"", pbt::esc(b), "\" c \"", pbt::esc(c), "\"");
  Exact ma(a), mb(b), mc(c);
  TextView ta(ma.view()), tb(mb.view()), tc(mc.view());
  auto check = [&](TextView x, TextView y) {
    int want = cmp(x, y);
    REQ_EQ(sgn(memcmp(x, y)), want, "memcmp of \"", pbt::esc(x), "\" and \"", pbt::esc(y), "\"");
    REQ_EQ(sgn(strcmp(x, y)), want, "strcmp of \"", pbt::esc(x), "\" and \"", pbt::esc(y), "\"");
    REQ_EQ(TextView::LessThan{}(x, y), want < 0, "LessThan of \"", pbt::esc(x), "\" and \"", pbt::esc(y), "\"");
    REQ_EQ(x == y, want == 0);
    REQ_EQ(x != y, want != 0);
    REQ_EQ(x < y, want < 0);
  };
  // views of the same memory
  TextView tp = tc.prefix(g.draw(tc.size())), ts = tc.suffix(g.draw(tc.size()));
  for (auto x : {ta, tb, tc, tp, ts})
    for (auto y : {ta, tb, tc, tp, ts})
      check(x, y);
  // affix checks
  REQ_EQ(tb.starts_with(ta), b.compare(0, a.size(), a) == 0 && b.size() >= a.size());
  REQ_EQ(tb.ends_with(ta), b.size() >= a.size() && b.compare(b.size() - a.size(), a.size(), a) == 0);
  if (a.find('\0') == a.npos) {
    REQ_EQ(tb.starts_with(a.c_str()), b.compare(0, a.size(), a) == 0 && b.size() >= a.size());
    REQ_EQ(tb.ends_with(a.c_str()), b.size() >= a.size() && b.compare(b.size() - a.size(), a.size(), a) == 0);
  }
  if (!a.empty()) {
    REQ_EQ(tb.starts_with(a[0]), !b.empty() && b[0] == a[0]);
    REQ_EQ(tb.ends_with(a[0]), !b.empty() && b.back() == a[0]);
  }
  // copy
  std::string buf(b.size() + 4, '\xAA');
  REQ(memcpy(buf.data() + 2, std::string_view(tb)) == buf.data() + 2);
  REQ(buf == "\xAA\xAA" + b + "\xAA\xAA", "memcpy");
  g.label("prefix relation", a != b && (b.compare(0, a.size(), a) == 0 || a.compare(0, b.size(), b) == 0));
  g.nontrivial(a != b && !a.empty() && !b.empty() && a[0] == b[0]);
}

PROPERTY(nocase, 5, "the texts differ but start with the same letter")
{
  g.scaled();
  g.huge();
  std::string a = gen(g, true), b = relative(g, a, true), c = relative(g, b, true);
  g.note("a \"", pbt::esc(a), "\" b \"", pbt::esc(b), "\" c \"", pbt::esc(c), "\"");
  Exact ma(a), mb(b), mc(c);
  TextView ta(ma.view()), tb(mb.view()), tc(mc.view());
  // views of the same memory
  TextView tp = tc.prefix(g.draw(tc.size())), ts = tc.suffix(g.draw(tc.size()));
  for (auto x : {ta, tb, tc, tp, ts})
    for (auto y : {ta, tb, tc, tp, ts}) {
      int want = cmp(low(x), low(y));
      REQ_EQ(sgn(strcasecmp(x, y)), want, "strcasecmp of \"", pbt::esc(x), "\" and \"", pbt::esc(y), "\"");
      REQ_EQ(TextView::LessThanNoCase{}(x, y), want < 0, "LessThanNoCase of \"", pbt::esc(x), "\" and \"", pbt::esc(y), "\"");
      REQ_EQ(TextView::CaselessEqual{}(x, y), want == 0, "CaselessEqual of \"", pbt::esc(x), "\" and \"", pbt::esc(y), "\"");
    }
  auto la = low(a), lb = low(b);
  REQ_EQ(tb.starts_with_nocase(ta), lb.size() >= la.size() && lb.compare(0, la.size(), la) == 0);
  REQ_EQ(tb.ends_with_nocase(ta), lb.size() >= la.size() && lb.compare(lb.size() - la.size(), la.size(), la) == 0);
  if (a.find('\0') == a.npos) {
    REQ_EQ(tb.starts_with_nocase(a.c_str()), lb.size() >= la.size() && lb.compare(0, la.size(), la) == 0);
    REQ_EQ(tb.ends_with_nocase(a.c_str()), lb.size() >= la.size() && lb.compare(lb.size() - la.size(), la.size(), la) == 0);
  }
  if (!a.empty()) {
    REQ_EQ(tb.starts_with_nocase(a[0]), !b.empty() && lb[0] == la[0]);
    REQ_EQ(tb.ends_with_nocase(a[0]), !b.empty() && lb.back() == la[0]);
  }
  g.nontrivial(a != b && !a.empty() && !b.empty() && la[0] == lb[0]);
}

// Use as the order of a container.
PROPERTY(containers, 2, "at least 4 distinct keys")
{
  g.scaled();
  g.huge();
  std::vector<std::string> keys;
  while (g.more(7, keys.size(), 16))
    keys.push_back(keys.empty() ? gen(g, true) : relative(g, g.pick(keys), true));
  std::set<TextView, TextView::LessThan> s;
  std::set<TextView, TextView::LessThanNoCase> sn;
  std::set<std::string> m, mn;
  for (auto &k : keys) {
    g.note("key \"", pbt::esc(k), "\"");
    REQ_EQ(s.insert(k).second, m.insert(k).second, "insert ", pbt::esc(k));
    REQ_EQ(sn.insert(k).second, mn.insert(low(k)).second, "insert nocase ", pbt::esc(k));
  }
  for (auto &k : keys) {
    REQ(s.find(k) != s.end(), "lost key");
    REQ(sn.find(k) != sn.end(), "lost key");
  }
  REQ(std::equal(s.begin(), s.end(), m.begin(), m.end(), [](TextView x, std::string const &y) { return std::string_view(x) == y; }), "order");
  REQ(std::equal(sn.begin(), sn.end(), mn.begin(), mn.end(), [](TextView x, std::string const &y) { return low(x) == y; }), "order");
  g.nontrivial(m.size() >= 4);
}
