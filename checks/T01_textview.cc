// T01 - extraction from a TextView partitions the original text, and only ever yields sub-views.
#include "util.h"
#include "swoc/TextView.h"
#include <sstream>
#include <iomanip>
using swoc::TextView;
using pbt::Src;

namespace
{
constexpr size_t NPOS = std::string_view::npos;
// How a character is selected.
struct Sel {
  int kind; // 0 char, 1 set, 2 predicate
  char c = ',';
  std::string set;
  bool
  match(char x) const
  {
    if (kind == 0)
      return x == c;
    return set.find(x) != NPOS;
  }
};
std::string_view const ALPHA0 = ",;ab1 .\xe9";
// Characters of the case, which are those above or else some that differ by a few bits only.
thread_local std::string ALPHA{ALPHA0};
void
gen_alphabet(Src &g)
{
  ALPHA = ALPHA0;
  if (!g.chance(25))
    return;
  char c = char(g.draw(255));
  ALPHA  = c;
  for (unsigned i = 0; g.more(4, i, 8); ++i)
    ALPHA += g.chance(20) ? char(g.draw(255)) : char(c ^ (1 << g.draw(7)));
  g.note("characters \"", pbt::esc(ALPHA), "\"");
}
std::string
gen_text(Src &g)
{
  if (g.chance(15))
    return g.bytes(40, 8);
  return g.str(ALPHA, 40, 9);
}
Sel
gen_sel(Src &g)
{
  Sel s;
  s.kind = g.range(0, 2);
  if (s.kind == 0) {
    s.c = g.chance(10) ? char(g.draw(255)) : g.pick(std::vector<char>(ALPHA.begin(), ALPHA.end()));
  } else {
    s.set = g.str(ALPHA, 5, 2);
    if (g.chance(10))
      s.set += char(g.draw(255));
  }
  return s;
}
size_t
first(std::string_view s, Sel const &sel)
{
  for (size_t i = 0; i < s.size(); ++i)
    if (sel.match(s[i]))
      return i;
  return NPOS;
}
size_t
last(std::string_view s, Sel const &sel)
{
  for (size_t i = s.size(); i-- > 0;)
    if (sel.match(s[i]))
      return i;
  return NPOS;
}

// A sub-view must be inside the original memory unless it is empty.
void
inside(TextView const &v, char const *base, size_t n)
{
  if (v.empty())
    return;
  REQ(v.data() >= base && v.data() + v.size() <= base + n, "view escapes the source");
}
} // namespace

// A history of extractions on one view, each compared to an index model.
PROPERTY(history, 10, "at least 2 extractions found their selected character and text has 3+ characters")
{
  g.scaled();
  g.huge();
  gen_alphabet(g);
  std::string text = gen_text(g);
  Exact mem(text);
  // Model: current view is [b,e) of text.
  size_t b = 0, e = text.size();
  TextView tv(mem.p, mem.n);
  g.note("text \"", pbt::esc(text), "\"");
  unsigned found = 0, steps = 0;
  while (g.more(6, steps, 12)) {
    ++steps;
    std::string_view cur = std::string_view(text).substr(b, e - b);
    Sel sel              = gen_sel(g);
    auto pred            = [&](char c) { return sel.match(c); };
    size_t f = first(cur, sel), l = last(cur, sel);
    size_t n             = g.chance(10) ? g.edgy() : g.draw(cur.size() + 3);
    unsigned op          = g.range(0u, 21u);
    bool const as_int    = n < 0x7fffffff && g.flip();  // the overload for int.
    bool const c_str     = sel.set.find('\0') == NPOS; // can be a C string.
    TextView r;
    std::string_view want, rest = cur;
    bool want_r = true; // check the return value
    char const *name = "";
    auto const set = TextView(sel.set);
    switch (op) {
    case 0:
      name = "prefix(n)";
      r    = as_int ? tv.prefix(int(n)) : tv.prefix(n);
      want = cur.substr(0, std::min(n, cur.size()));
      break;
    case 1:
      name = "suffix(n)";
      r    = as_int ? tv.suffix(int(n)) : tv.suffix(n);
      want = cur.substr(cur.size() - std::min(n, cur.size()));
      break;
    case 2:
      name = "prefix_at/if";
      r    = sel.kind == 0 ? tv.prefix_at(sel.c) : sel.kind == 1 ? tv.prefix_at(set) : tv.prefix_if(pred);
      want = f == NPOS ? "" : cur.substr(0, f);
      break;
    case 3:
      name = "suffix_at/if";
      r    = sel.kind == 0 ? tv.suffix_at(sel.c) : sel.kind == 1 ? tv.suffix_at(set) : tv.suffix_if(pred);
      want = l == NPOS ? "" : cur.substr(l + 1);
      break;
    case 4:
      name = "remove_prefix(n)";
      tv.remove_prefix(n);
      rest   = cur.substr(std::min(n, cur.size()));
      want_r = false;
      break;
    case 5:
      name = "remove_suffix(n)";
      tv.remove_suffix(n);
      rest   = cur.substr(0, cur.size() - std::min(n, cur.size()));
      want_r = false;
      break;
    case 6: // not found is documented two ways, so only when found.
      name = "remove_prefix_at/if";
      want_r = false;
      if (f == NPOS)
        break;
      sel.kind == 0 ? tv.remove_prefix_at(sel.c) : sel.kind == 1 ? tv.remove_prefix_at(set) : tv.remove_prefix_if(pred);
      rest = cur.substr(f + 1);
      break;
    case 7:
      name   = "remove_suffix_at/if";
      want_r = false;
      if (l == NPOS)
        break;
      sel.kind == 0 ? tv.remove_suffix_at(sel.c) : sel.kind == 1 ? tv.remove_suffix_at(set) : tv.remove_suffix_if(pred);
      rest = cur.substr(0, l);
      break;
    case 8:
      name = "split_prefix(n)";
      if (n == cur.size())
        ++n; // ambiguous
      r = as_int ? tv.split_prefix(int(n)) : tv.split_prefix(n);
      if (n < cur.size()) {
        want = cur.substr(0, n);
        rest = cur.substr(n + 1);
      }
      break;
    case 9:
      name = "split_prefix_at/if";
      r    = sel.kind == 0 ? tv.split_prefix_at(sel.c) : sel.kind == 1 ? tv.split_prefix_at(set) : tv.split_prefix_if(pred);
      if (f != NPOS) {
        want = cur.substr(0, f);
        rest = cur.substr(f + 1);
      }
      break;
    case 10:
      name = "take_prefix(n)";
      r    = tv.take_prefix(n);
      want = cur.substr(0, std::min(n, cur.size()));
      rest = n < cur.size() ? cur.substr(n + 1) : cur.substr(cur.size());
      break;
    case 11:
      name = "take_prefix_at/if";
      r    = sel.kind == 0 ? tv.take_prefix_at(sel.c) : sel.kind == 1 ? tv.take_prefix_at(set) : tv.take_prefix_if(pred);
      want = f == NPOS ? cur : cur.substr(0, f);
      rest = f == NPOS ? cur.substr(cur.size()) : cur.substr(f + 1);
      break;
    case 12:
      name = "split_suffix(n)";
      if (n == cur.size())
        ++n;
      r = as_int ? tv.split_suffix(int(n)) : tv.split_suffix(n);
      if (n < cur.size()) {
        want = cur.substr(cur.size() - n);
        rest = cur.substr(0, cur.size() - n - 1);
      }
      break;
    case 13:
      name = "split_suffix_at/if";
      r    = sel.kind == 0 ? tv.split_suffix_at(sel.c) : sel.kind == 1 ? tv.split_suffix_at(set) : tv.split_suffix_if(pred);
      if (l != NPOS) {
        want = cur.substr(l + 1);
        rest = cur.substr(0, l);
      }
      break;
    case 14:
      name = "take_suffix_at/if";
      r    = sel.kind == 0 ? tv.take_suffix_at(sel.c) : sel.kind == 1 ? tv.take_suffix_at(set) : tv.take_suffix_if(pred);
      want = l == NPOS ? cur : cur.substr(l + 1);
      rest = l == NPOS ? cur.substr(0, 0) : cur.substr(0, l);
      break;
    case 15: {
      name     = "clip_prefix_of";
      r        = tv.clip_prefix_of(pred);
      size_t k = 0;
      while (k < cur.size() && pred(cur[k]))
        ++k;
      want = cur.substr(0, k);
      rest = cur.substr(k);
      f    = k ? 0 : NPOS;
      break;
    }
    case 16: {
      name     = "clip_suffix_of";
      r        = tv.clip_suffix_of(pred);
      size_t k = 0;
      while (k < cur.size() && pred(cur[cur.size() - 1 - k]))
        ++k;
      want = cur.substr(cur.size() - k);
      rest = cur.substr(0, cur.size() - k);
      f    = k ? 0 : NPOS;
      break;
    }
    case 17: {
      name   = "ltrim";
      want_r = false;
      if (sel.kind == 1 && c_str && g.flip())
        tv.ltrim(sel.set.c_str());
      else if (sel.kind == 1 && g.flip())
        tv.ltrim(swoc::CharSet(set));
      else
        sel.kind == 0 ? tv.ltrim(sel.c) : sel.kind == 1 ? tv.ltrim(std::string_view(sel.set)) : tv.ltrim_if(pred);
      while (!rest.empty() && sel.match(rest.front()))
        rest.remove_prefix(1);
      break;
    }
    case 18: {
      name   = "rtrim";
      want_r = false;
      if (sel.kind == 1 && g.flip())
        tv.rtrim(std::string_view(sel.set));
      else
        sel.kind == 0 ? tv.rtrim(sel.c) : sel.kind == 1 ? tv.rtrim(swoc::CharSet(set)) : tv.rtrim_if(pred);
      while (!rest.empty() && sel.match(rest.back()))
        rest.remove_suffix(1);
      break;
    }
    case 19: {
      name   = "trim";
      want_r = false;
      if (sel.kind == 1 && c_str && g.flip())
        tv.trim(sel.set.c_str());
      else if (sel.kind == 1 && g.flip())
        tv.trim(swoc::CharSet(set));
      else
        sel.kind == 0 ? tv.trim(sel.c) : sel.kind == 1 ? tv.trim(std::string_view(sel.set)) : tv.trim_if(pred);
      while (!rest.empty() && sel.match(rest.front()))
        rest.remove_prefix(1);
      while (!rest.empty() && sel.match(rest.back()))
        rest.remove_suffix(1);
      break;
    }
    case 20: {
      name       = "substr";
      size_t cnt = g.chance(30) ? NPOS : g.draw(cur.size() + 2);
      r          = tv.substr(n, cnt);
      want       = n >= cur.size() ? "" : cur.substr(n, cnt);
      break;
    }
    case 21: {
      name   = "++ / += / *";
      want_r = false;
      REQ_EQ(*tv, cur.empty() ? '\0' : cur[0], "deref");
      if (g.flip()) {
        tv   += n;
        rest  = cur.substr(std::min(n, cur.size()));
      } else if (g.flip()) {
        r = tv++;
        REQ_EQ(std::string_view(r), cur, "post increment");
        rest = cur.substr(std::min<size_t>(1, cur.size()));
      } else {
        ++tv;
        rest = cur.substr(std::min<size_t>(1, cur.size()));
      }
      break;
    }
    }
    g.note("  ", name, " kind ", sel.kind, " c '", pbt::esc({&sel.c, 1}), "' set \"", pbt::esc(sel.set), "\" n ", n, " -> \"", pbt::esc(r), "\" left \"",
           pbt::esc(tv), "\"");
    g.label(name);
    if (f != NPOS)
      ++found;
    if (want_r)
      REQ_EQ(std::string_view(r), want, name, " result, was \"", pbt::esc(cur), "\"");
    REQ_EQ(std::string_view(tv), rest, name, " remaining, was \"", pbt::esc(cur), "\"");
    inside(r, mem.p, mem.n);
    inside(tv, mem.p, mem.n);
    if (want_r && !want.empty() && op != 20) // not just equal content, the same memory.
      REQ(r.data() == mem.p + (want.data() - text.data()), name, " wrong place");
    if (!rest.empty())
      REQ(tv.data() == mem.p + (rest.data() - text.data()), name, " wrong place");
    b = rest.data() - text.data();
    e = b + rest.size();
    REQ_EQ(bool(tv), !rest.empty());
    REQ_EQ(!tv, rest.empty());
    REQ(tv.data_end() == tv.data() + tv.size());
  }
  g.nontrivial(found >= 2 && text.size() >= 3);
}

// Tokenizing loops - the documented idiom - terminate and reproduce the text.
PROPERTY(tokenize, 3, "the text has at least 2 separators")
{
  g.scaled();
  g.huge();
  gen_alphabet(g);
  std::string text = gen_text(g);
  Exact mem(text);
  char sep      = g.pick({',', ';', ' '});
  bool from_end = g.flip();
  g.note("text \"", pbt::esc(text), "\" sep ", sep, from_end ? " from end" : "");
  size_t seps = std::count(text.begin(), text.end(), sep);
  std::vector<std::string> toks;
  TextView tv(mem.p, mem.n);
  size_t guard = 0;
  while (tv) {
    REQ(++guard <= text.size() + 2, "tokenizing does not make progress");
    size_t sz = tv.size();
    TextView t = from_end ? tv.take_suffix_at(sep) : tv.take_prefix_at(sep);
    REQ(tv.size() < sz, "no progress");
    REQ(t.find(sep) == NPOS, "separator in token");
    toks.emplace_back(t);
  }
  // reassemble
  std::string out;
  if (from_end)
    std::reverse(toks.begin(), toks.end());
  for (size_t i = 0; i < toks.size(); ++i) {
    if (i)
      out += sep;
    out += toks[i];
  }
  // a separator at the boundary where scanning finished is dropped with the emptied view.
  std::string want = text;
  if (!want.empty() && toks.size() == seps) {
    if (from_end)
      want.erase(0, 1);
    else
      want.pop_back();
  }
  REQ(toks.size() == seps || toks.size() == seps + 1, "token count ", toks.size());
  REQ_EQ(out, want, "reassembled");
  g.nontrivial(seps >= 2);
}

// Construction forms agree.
PROPERTY(construct, 1, "non-empty text")
{
  g.scaled();
  g.huge();
  std::string text = g.str("abc \xff,", 20, 6);
  g.note("text \"", pbt::esc(text), "\"");
  char const *p = text.c_str();
  char *q       = text.data();
  TextView ref(text.data(), text.size());
  REQ_EQ(std::string_view(TextView(p)), std::string_view(text));
  REQ_EQ(std::string_view(TextView(q)), std::string_view(text));
  REQ_EQ(std::string_view(TextView(p, -1)), std::string_view(text));
  REQ_EQ(std::string_view(TextView(p, ssize_t(-1))), std::string_view(text));
  REQ_EQ(std::string_view(TextView(p, NPOS)), std::string_view(text));
  REQ_EQ(std::string_view(TextView(p, p + text.size())), std::string_view(text));
  REQ_EQ(std::string_view(TextView(text)), std::string_view(text));
  REQ_EQ(std::string_view(TextView(std::string_view(text))), std::string_view(text));
  std::vector<char> v(text.begin(), text.end());
  REQ_EQ(std::string_view(TextView(v)), std::string_view(text));
  int k = g.range<int>(0, int(text.size()));
  REQ_EQ(std::string_view(TextView(p, k)), std::string_view(text).substr(0, k));
  REQ_EQ(std::string_view(TextView(p, unsigned(k))), std::string_view(text).substr(0, k));
  REQ_EQ(std::string_view(TextView(p, ssize_t(k))), std::string_view(text).substr(0, k));
  REQ_EQ(std::string_view(TextView(p, size_t(k))), std::string_view(text).substr(0, k));
  TextView t;
  REQ(t.empty() && !t);
  t = text;
  REQ_EQ(std::string_view(t), std::string_view(text));
  t.clear();
  REQ(t.empty());
  t.assign(p);
  REQ_EQ(std::string_view(t), std::string_view(text));
  t = std::string_view(text).substr(0, k);
  REQ_EQ(t.size(), size_t(k));
  t.assign(p, p + text.size());
  REQ_EQ(std::string_view(t), std::string_view(text));
  t.assign(v);
  REQ(t.data() == v.data() && t.size() == v.size());
  t = p;
  REQ_EQ(std::string_view(t), std::string_view(text));
  t.clear();
  t = q;
  REQ(t.data() == q && t.size() == text.size(), "assign pointer");
  t.clear();
  t.assign(q);
  REQ(t.data() == q && t.size() == text.size(), "assign pointer");
  t.clear();
  t = text;
  REQ(t.data() == q && t.size() == text.size(), "assign string");
  t.clear();
  t.assign(text);
  REQ(t.data() == q && t.size() == text.size(), "assign string");
  t.assign(p, size_t(k));
  REQ(t.data() == p && t.size() == size_t(k), "assign counted");
  t.assign(p, NPOS);
  REQ(t.data() == p && t.size() == text.size(), "assign C string");
  char arr[5] = {'a', 'b', 'c', 'd', g.flip() ? 'e' : '\0'};
  TextView ta(arr);
  REQ_EQ(ta.size(), size_t(arr[4] ? 5 : 4));
  t.clear();
  t.assign(arr);
  REQ(t.data() == arr && t.size() == size_t(arr[4] ? 5 : 4), "assign array");
  t = arr;
  REQ_EQ(t.size(), size_t(arr[4] ? 5 : 4));
  REQ(TextView(nullptr).empty());
  REQ(TextView(static_cast<char const *>(nullptr), -1).empty());
  // find_if / rfind_if / CharSet
  std::string set = g.flip() ? g.bytes(8, 3) : g.str("abc \xff,", 4, 2);
  swoc::CharSet cs{TextView(set)};
  for (int c = 0; c < 256; ++c) {
    REQ_EQ(cs(char(c)), set.find(char(c)) != NPOS, "CharSet ", c);
    REQ_EQ(cs((unsigned char)(c)), set.find(char(c)) != NPOS, "CharSet ", c);
  }
  auto pred = [&](char c) { return cs(c); };
  REQ_EQ(ref.find_if(pred), text.find_first_of(set));
  REQ_EQ(ref.rfind_if(pred), text.find_last_of(set));
  REQ_EQ(std::hash<TextView>{}(ref), std::hash<std::string_view>{}(text));
  g.nontrivial(!text.empty());
}

// A view streams exactly as a string view does, for any width, fill and adjustment.
PROPERTY(stream, 1, "the width is more than the text")
{
  g.scaled();
  g.huge();
  gen_alphabet(g);
  std::string text = gen_text(g);
  std::ostringstream os, want;
  int w     = g.flip() ? 0 : g.range(0, 60);
  char fill = g.pick({' ', '*', '0'});
  int adj   = g.range(0, 3);
  for (auto s : {&os, &want}) {
    s->fill(fill);
    if (adj == 1)
      *s << std::left;
    else if (adj == 2)
      *s << std::right;
    else if (adj == 3)
      *s << std::internal;
    s->width(w);
  }
  g.note("text \"", pbt::esc(text), "\" width ", w, " fill ", fill, " adjust ", adj);
  os << TextView(text);
  want << std::string_view(text);
  REQ_EQ(os.str(), want.str(), "streamed");
  REQ_EQ(os.width(), 0, "width is used once");
  os << TextView(text);
  want << text;
  REQ_EQ(os.str(), want.str(), "streamed again");
  os.setstate(std::ios::badbit);
  os << TextView(text);
  REQ_EQ(os.str(), want.str(), "streamed to a failed stream");
  g.nontrivial(size_t(w) > text.size());
}
