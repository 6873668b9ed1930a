// T05 - A transform view is the element by element image of its source.
#include "util.h"
#include "swoc/TextView.h"
#include "swoc/MemSpan.h"
#include "swoc/bwf_base.h"
#include <iterator>
#include <algorithm>
#include <cctype>
using swoc::TextView;
using pbt::Src;

template <typename XV, typename T>
static void
exercise(Src &g, XV const &xv, std::vector<T> const &want)
{
  // while loop
  {
    XV v{xv};
    size_t i = 0;
    while (v) {
      REQ(i < want.size(), "too many elements");
      REQ(!v.empty());
      REQ(*v == want[i], "element ", i);
      if (i & 1) {
        ++v;
      } else {
        XV w = v++;
        REQ(*w == want[i], "post increment, element ", i);
      }
      ++i;
    }
    REQ_EQ(i, want.size(), "number of elements");
    REQ(v.empty());
  }
  // range for
  {
    size_t i = 0;
    for (auto &&c : xv) {
      REQ(i < want.size(), "too many elements - range for");
      REQ(c == want[i], "element ", i);
      ++i;
    }
    REQ_EQ(i, want.size(), "number of elements - range for");
  }
  // iterators, equality
  {
    auto b = xv.begin(), e = xv.end();
    REQ(e.empty());
    REQ_EQ(b == e, want.empty());
    REQ_EQ(b != e, !want.empty());
    size_t k = want.empty() ? 0 : g.draw(want.size());
    auto c1 = b, c2 = b;
    for (size_t i = 0; i < k; ++i) {
      ++c1;
      c2++;
    }
    REQ(c1 == c2);
    REQ_EQ(c1 == e, k == want.size());
    REQ_EQ(c1 == b, k == 0);
    c2 = b;
    REQ(c2 == xv.begin());
    std::vector<T> got;
    for (; c2 != e; ++c2)
      got.push_back(*c2);
    REQ(got == want, "iteration after assignment");
  }
}

PROPERTY(view, 5, "the source has 3+ elements")
{
  g.scaled();
  g.huge();
  std::string text = g.bytes(40, 8);
  if (g.chance(4) && !text.empty()) { // long, few different elements
    size_t n = g.draw(700);
    while (text.size() < n)
      text += text.substr(0, std::min(text.size(), n - text.size()));
  }
  g.note("text \"", pbt::esc(text), "\"");
  int k = g.draw(255);
  Exact mem(text);
  TextView tv(mem.view());
  std::string_view sv(mem.view());
  std::vector<int> up;
  std::vector<char> same(text.begin(), text.end()), xored;
  for (char c : text)
    up.push_back(toupper(c));
  for (char c : text)
    xored.push_back(char(c ^ k));
  switch (g.range(0, 6)) {
  case 0:
    exercise(g, swoc::transform_view_of(&toupper, tv), up);
    break;
  case 1:
    exercise(g, swoc::transform_view_of(&toupper, sv), up);
    break;
  case 2:
    exercise(g, swoc::transform_view_of(tv), same);
    break;
  case 3:
    exercise(g, swoc::transform_view_of(sv), same);
    break;
  case 4: {
    // function objects that can be assigned.
    std::function<char(char)> f = [=](char c) -> char { return c ^ k; };
    exercise(g, swoc::transform_view_of(f, sv), xored);
    break;
  }
  case 5: {
    swoc::MemSpan<char> span(mem.p, mem.n);
    std::function<char(char)> f = [=](char c) -> char { return c ^ k; };
    exercise(g, swoc::transform_view_of(f, span), xored);
    break;
  }
  case 6: { // not characters
    std::vector<int> src(text.begin(), text.end());
    std::vector<long> want;
    for (int n : src)
      want.push_back(3l * n - k);
    std::function<long(int)> f = [=](int n) { return 3l * n - k; };
    exercise(g, swoc::transform_view_of(f, swoc::MemSpan<int>(src.data(), src.size())), want);
    break;
  }
  }
  g.nontrivial(text.size() >= 3);
}

// A transform view prints as the transformed text.
PROPERTY(print, 2, "the text has 3+ characters")
{
  g.scaled();
  g.huge();
  std::string text = g.bytes(40, 8);
  std::string want;
  for (char c : text)
    want += char(tolower(c));
  std::string out(g.draw(50), '\xAA');
  swoc::FixedBufferWriter w(out.data(), out.size());
  bwformat(w, swoc::bwf::Spec::DEFAULT, swoc::transform_view_of(&tolower, TextView(text)));
  g.note("text \"", pbt::esc(text), "\" buffer ", out.size());
  REQ_EQ(w.extent(), want.size());
  REQ_EQ(std::string_view(w.view()), std::string_view(want).substr(0, out.size()));
  g.nontrivial(text.size() >= 3);
}
