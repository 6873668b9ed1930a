// F01 - file path values.
#include "bwf_util.h"
#include "swoc/swoc_file.h"
#include <filesystem>
#include <set>
#include <unordered_set>
using swoc::TextView;
using swoc::file::path;
namespace fs = std::filesystem;
using pbt::Src;

namespace
{
std::string
component(Src &g)
{
  return g.chance(60) ? g.pick({std::string("a"), std::string("b.c"), std::string("."), std::string(".."), std::string(".x"),
                                std::string("long name"), std::string("d")}) :
         g.chance(80) ? [&] {
           auto s = g.str("ab.- ~\\:", 5, 2);
           return s.empty() ? std::string("e") : s;
         }() :
                        [&] {
                          auto s = g.bytes(5, 2);
                          for (auto &c : s)
                            if (c == '/')
                              c = '_';
                          return s.empty() ? std::string("z") : s;
                        }();
}

/// Text of a path.
std::string
text(Src &g)
{
  std::string z;
  auto sep = [&] { z.append(g.chance(85) ? 1 : 1 + g.draw(3), '/'); };
  if (g.chance(35))
    sep();
  unsigned n = 0;
  while (g.more(2, n, 6)) {
    if (n++ && z.back() != '/')
      sep();
    z += component(g);
  }
  if (n && g.chance(20))
    sep();
  return z;
}

/// The same path with only the separators that are needed.
std::string
norm(std::string_view s)
{
  std::string z;
  for (char c : s)
    if (c != '/' || z.empty() || z.back() != '/')
      z += c;
  if (z.size() > 1 && z.back() == '/')
    z.pop_back();
  return z;
}

path
make(Src &g, std::string const &s)
{
  bool z = s.find('\0') == s.npos;
  switch (g.draw(8)) {
  case 0:
    return path(s);
  case 1:
    return path(std::string_view(s));
  case 2:
    return path(std::string(s));
  case 3:
    return z ? path(s.c_str()) : path(s);
  case 4: {
    path p{g.str("/x", 5)};
    p = s;
    return p;
  }
  case 5: {
    path p{g.str("/x", 5)};
    p = std::string_view(s);
    return p;
  }
  case 6: {
    path p{g.str("/x", 5)};
    p = std::string(s);
    return p;
  }
  case 7: {
    path p{g.str("/x", 5)};
    if (z)
      p = s.c_str();
    else
      p = s;
    return p;
  }
  default: {
    path p{s}, q, r;
    q = p;
    REQ(p.string() == s);
    r = std::move(q);
    return path(std::move(r));
  }
  }
}

/// Join by definition.
std::string
join(std::string const &a, std::string const &b)
{
  if (b.empty())
    return a;
  if (b[0] == '/' || a.empty())
    return b;
  return a.back() == '/' ? a + b : a + '/' + b;
}

void
verify(Src &g, path const &p, std::string const &s)
{
  REQ_EQ(p.string(), s);
  REQ_EQ(std::string(p.view()), s);
  REQ(p.c_str()[s.size()] == 0 && 0 == memcmp(p.c_str(), s.data(), s.size()));
  REQ_EQ(p.empty(), s.empty());
  fs::path f{s};
  REQ_EQ(p.is_absolute(), f.is_absolute(), "is absolute ", pbt::esc(s));
  REQ_EQ(p.is_relative(), f.is_relative());
  REQ_EQ(p.filename().string(), f.filename().string(), "file name of ", pbt::esc(s));
  auto rel = p.relative_path();
  REQ(rel.is_relative(), "relative part of ", pbt::esc(s), " is ", pbt::esc(rel.string()));
  REQ_EQ(rel.string(), f.relative_path().string(), "relative part of ", pbt::esc(s));
  auto parent = p.parent_path();
  REQ_EQ(norm(parent.string()), norm(f.parent_path().string()), "parent of ", pbt::esc(s));
  if (s.find("//") == s.npos)
    REQ_EQ(parent.string(), f.parent_path().string(), "parent of ", pbt::esc(s));
  // Taken apart it can be put back together.
  if (auto name = p.filename(); !name.empty()) {
    REQ_EQ(norm((parent / name).string()), norm(s), "parent / file name");
    REQ_EQ(norm((parent / name.view()).string()), norm(s), "parent / file name");
  }
  if (!rel.empty() && p.is_absolute())
    REQ_EQ(norm((path("/") / rel).string()), norm(s));
  REQ(p == path(s) && !(p != path(s)));
  REQ_EQ(std::hash<path>()(p), std::hash<path>()(path(s)));
  if (g.chance(10)) {
    auto spec = ref::gen_spec(g, "gsS");
    auto fmt  = "{" + ref::text(g, spec) + "}";
    bool num  = spec.alignment() == '=';
    auto got  = print_all(g, [&](swoc::BufferWriter &w) { w.print(TextView(fmt), p); });
    if (!num)
      REQ_EQ(got, ref::string(spec, s), "format ", pbt::esc(fmt));
  }
}
} // namespace

PROPERTY(parts, 5, "more than one component")
{
  g.scaled();
  g.huge();
  auto s = text(g);
  auto p = make(g, s);
  g.note("path ", s);
  verify(g, p, s);
  auto cap = p.string().capacity() + g.draw(50);
  p.reserve(cap);
  REQ(p.string().capacity() >= cap);
  verify(g, p, s);
  g.nontrivial(norm(s).find('/', 1) != std::string::npos);
  g.label("separators", s.find("//") != s.npos);
}

// Up from any path gets to the top.
PROPERTY(ancestors, 2, "at least three steps")
{
  g.scaled();
  g.huge();
  auto s = text(g);
  path p{s};
  unsigned n = 0;
  while (true) {
    auto up = p.parent_path();
    REQ_EQ(norm(up.string()), norm(fs::path(p.string()).parent_path().string()), "parent of ", pbt::esc(p.string()));
    REQ_EQ(up.is_absolute(), p.is_absolute());
    if (up == p)
      break;
    p = up;
    REQ(++n < 5000, "no end to the parents of ", pbt::esc(s));
  }
  REQ_EQ(p.string(), s.empty() || s[0] != '/' ? "" : "/", "the top of ", pbt::esc(s));
  g.nontrivial(n > 2);
}

PROPERTY(joined, 6, "joined at least two non-empty paths")
{
  g.scaled();
  g.huge();
  std::string m = text(g);
  path p        = make(g, m);
  unsigned n = 0, used = 0;
  while (g.more(3, n, 8)) {
    ++n;
    auto s  = g.chance(75) ? component(g) : text(g);
    auto q  = make(g, s);
    auto m2 = join(m, s);
    g.note("join ", m, " and ", s);
    switch (g.draw(m.size() > 4096 ? 5 : 7)) { // no doubling of what is long already
    case 0:
      REQ(&(p /= q) == &p);
      break;
    case 1: {
      Exact e{s};
      REQ(&(p /= std::string_view(e.view())) == &p);
    } break;
    case 2: {
      auto r = p / q;
      verify(g, p, m);
      p = r;
    } break;
    case 3: {
      auto r = p / std::string_view(s);
      verify(g, p, m);
      p = std::move(r);
    } break;
    case 4:
      p = std::move(p) / q;
      break;
    case 5:
      p = path(p) / std::string_view(s);
      break;
    case 6: // itself, or part of it.
      m2 = join(m, m);
      s  = m;
      if (g.flip())
        p /= p;
      else
        p /= p.view();
      break;
    case 7: {
      size_t k = g.draw(m.size()), idx = g.draw(m.size() - k);
      s        = m.substr(idx, k);
      m2       = join(m, s);
      p       /= p.view().substr(idx, k);
    } break;
    }
    used += !m.empty() && !s.empty();
    verify(g, q, q.string());
    // Joined as components, nothing doubled or lost.
    if (!s.empty() && s[0] != '/' && !m.empty())
      REQ_EQ(norm(p.string()), norm(m + "/" + s), "joining ", pbt::esc(m), " and ", pbt::esc(s));
    m = m2;
    verify(g, p, m);
    REQ_EQ((p / path()).string(), m);
    REQ_EQ((path() / p).string(), m);
  }
  g.nontrivial(used > 1);
}

PROPERTY(compared, 2, "different text or the same text from different sources")
{
  g.scaled();
  g.huge();
  auto a = text(g);
  auto b = g.flip() ? a : text(g);
  path p = make(g, a), q = make(g, b);
  REQ_EQ(p == q, a == b);
  REQ_EQ(p != q, a != b);
  if (a == b)
    REQ_EQ(std::hash<path>()(p), std::hash<path>()(q));
  std::unordered_set<path> set;
  std::set<std::string> ref;
  unsigned n = 0;
  while (g.more(6, n, 20)) {
    ++n;
    auto s = text(g);
    REQ_EQ(set.insert(make(g, s)).second, ref.insert(s).second);
  }
  REQ_EQ(set.count(p), ref.count(a));
  REQ_EQ(set.size(), ref.size());
  g.nontrivial(!a.empty());
}
