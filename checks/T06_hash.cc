// T06 - the FNV hashes are FNV-1a, however the data is presented.
#include "util.h"
#include "swoc/TextView.h"
#include "swoc/MemSpan.h"
#include "swoc/ext/HashFNV.h"
using swoc::TextView;
using pbt::Src;

static uint32_t
ref32(std::string_view s)
{
  uint32_t h = 2166136261u;
  for (unsigned char c : s) {
    h ^= c;
    h *= 16777619u;
  }
  return h;
}
static uint64_t
ref64(std::string_view s)
{
  uint64_t h = 14695981039346656037ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

static uint32_t
step(uint32_t h, unsigned char c)
{
  return (h ^ c) * 16777619u;
}
static uint64_t
step(uint64_t h, unsigned char c)
{
  return (h ^ c) * 1099511628211ull;
}

template <typename H, typename V>
static void
check(Src &g, std::string const &text, V (*ref)(std::string_view))
{
  Exact mem(text);
  V want = ref(text);
  std::vector<V> prefix; // values for every prefix.
  for (size_t i = 0; i <= text.size(); ++i)
    prefix.push_back(i ? step(prefix.back(), text[i - 1]) : ref(""));
  REQ_EQ(prefix.back(), want);
  REQ_EQ(H().hash_immediate(mem.view()), want, "immediate, text \"", pbt::esc(text), "\"");
  REQ_EQ(H().hash_immediate(swoc::transform_view_of(TextView(mem.view()))), want, "immediate view");
  H h;
  REQ_EQ(h.get(), ref(""), "initial");
  // in pieces
  size_t i = 0;
  while (i < text.size()) {
    size_t n = 1 + g.draw(text.size() - i - 1);
    if (g.flip())
      h.update(mem.view().substr(i, n));
    else
      h.update(swoc::transform_view_of(mem.view().substr(i, n)));
    i += n;
    REQ_EQ(h.get(), prefix[i], "after ", i);
  }
  REQ_EQ(h.final().get(), want, "in pieces, text \"", pbt::esc(text), "\"");
  // finish in one step, after other data.
  {
    size_t k = g.draw(text.size());
    H a, b;
    a.update(mem.view().substr(0, k));
    b.update(swoc::transform_view_of(mem.view().substr(0, k)));
    H c{a};
    REQ_EQ(a.hash_immediate(mem.view().substr(k)), want, "immediate after ", k, ", text \"", pbt::esc(text), "\"");
    REQ_EQ(b.hash_immediate(swoc::transform_view_of(mem.view().substr(k))), want, "immediate view after ", k);
    REQ_EQ(a.get(), want, "state after immediate");
    REQ_EQ(c.get(), ref(std::string_view(text).substr(0, k)), "copy is changed");
    c = H();
    REQ_EQ(c.update(mem.view()).get(), want, "assigned");
  }
  h.clear();
  REQ_EQ(h.update(mem.view()).final().get(), want, "after clear");
  // Transformed.
  std::string ascii = g.str("abcXYZ .,-", 20, 6), up;
  for (char c : ascii)
    up += char(toupper(c));
  REQ_EQ(H().hash_immediate(swoc::transform_view_of(&toupper, TextView(ascii))), ref(up), "transformed \"", ascii, "\"");
  auto x      = [](char c) -> char { return char(c + 100); };
  std::string shifted;
  for (char c : text)
    shifted += x(c);
  REQ_EQ(H().hash_immediate(swoc::transform_view_of(x, TextView(mem.view()))), ref(shifted), "shifted \"", pbt::esc(text), "\"");
  REQ_EQ(H().update(swoc::transform_view_of(x, TextView(mem.view()))).final().get(), ref(shifted));
}

PROPERTY(fnv, 1, "the text has 2+ octets")
{
  g.scaled();
  g.huge();
  std::string text = g.bytes(60, 10);
  g.note("text \"", pbt::esc(text), "\"");
  check<swoc::Hash32FNV1a>(g, text, &ref32);
  check<swoc::Hash64FNV1a>(g, text, &ref64);
  g.nontrivial(text.size() >= 2);
}
