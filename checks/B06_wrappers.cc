// B06 - formatting wrappers and formatters for standard types.
#include "bwf_util.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include "swoc/MemSpan.h"
#include "swoc/Scalar.h"
#include <ctime>
#include <cerrno>
#include <memory>
#include <stdexcept>
using swoc::BufferWriter;
using swoc::TextView;
using swoc::MemSpan;
namespace bwf = swoc::bwf;
using pbt::Src;

// The sanitizer doesn't know what strftime writes.
extern "C" {
void *__asan_region_is_poisoned(void *, size_t);
size_t __real_strftime(char *, size_t, char const *, struct tm const *);
size_t
__wrap_strftime(char *s, size_t max, char const *fmt, struct tm const *tm)
{
  auto n = __real_strftime(s, max, fmt, tm);
  if (n)
    REQ(!__asan_region_is_poisoned(s, n + 1), "strftime has written outside of the destination");
  return n;
}
}

namespace
{
/// All formats for the wrappers are text, which can be placed in a field.
struct Style {
  ref::Spec spec;
  std::string fmt;
  Style(Src &g, std::string_view types, std::string_view exts = "")
  {
    spec = ref::gen_spec(g, types.empty() ? std::string_view{"s"} : types);
    if (types.empty())
      spec.type = 0;
    spec.prec = -1;
    if (spec.alignment() == '=') // only documented for numbers.
      spec.align = '>';
    if (spec.max >= 0 && size_t(spec.max) < spec.min) // not defined which is first.
      spec.max = -1;
    spec.has_ext = false;
    spec.ext.clear();
    if (!exts.empty() && g.flip()) {
      spec.has_ext = true;
      spec.ext     = exts;
    }
    fmt = "{" + ref::text(g, spec) + "}";
  }
};

std::string
gen_data(Src &g)
{
  return g.bytes(60, 10);
}

struct Pod {
  uint64_t a;
  uint16_t b[3];
  uint8_t c[2];
};
} // namespace

// Bytes to hex and back.
PROPERTY(hex, 4, "the data is more than one byte")
{
  g.scaled();
  g.huge();
  auto data = gen_data(g);
  Exact e{data};
  bool upper = g.flip();
  std::string txt;
  switch (g.draw(3)) {
  case 0:
    txt = render(g, upper ? "{:X}" : "{:x}", std::string_view(e.view()));
    break;
  case 1:
    txt = render(g, upper ? "{:X}" : "{:x}", bwf::HexDump(e.p, e.n));
    break;
  case 2:
    txt = render(g, upper ? "{:X}" : "{:x}", MemSpan<void const>(e.p, e.n));
    break;
  case 3: {
    Pod pod;
    memset(&pod, 0, sizeof pod);
    data.resize(sizeof pod);
    memcpy(&pod, data.data(), sizeof pod);
    txt = render(g, upper ? "{:X}" : "{:x}", bwf::As_Hex(pod));
  } break;
  }
  REQ_EQ(txt, ref::hex(data, upper));
  // Decode
  if (g.chance(30)) // case doesn't matter.
    for (auto &c : txt)
      if (g.flip())
        c = ref::recase({&c, 1}, g.flip())[0];
  bool odd = g.chance(10);
  if (odd)
    txt += '7';
  Exact ee{txt};
  REQ_EQ(render(g, "{}", bwf::UnHex(MemSpan<void const>(ee.p, ee.n))), data, "decode of ", txt);
  Style s(g, "");
  REQ_EQ(render(g, s.fmt, bwf::UnHex(MemSpan<void const>(ee.p, ee.n))), ref::plain(s.spec, data), "decode of ", txt, " format ",
         pbt::esc(s.fmt));
  if (!odd && g.flip())
    REQ_EQ(render(g, "{}", bwf::UnHex(txt)), data);
  g.nontrivial(data.size() > 1);
}

PROPERTY(pattern, 2, "repeated, and not empty")
{
  g.scaled();
  g.huge();
  auto txt = g.chance(90) ? g.str("ab-=", 5, 2) : g.bytes(10, 4);
  int n    = int(g.draw(24)) - 3;
  Style s(g, "");
  std::string all;
  for (int i = 0; i < n; ++i)
    all += txt;
  Exact e{txt};
  REQ_EQ(render(g, s.fmt, bwf::Pattern{n, e.view()}), ref::plain(s.spec, all), n, " of ", pbt::esc(txt), " format ",
         pbt::esc(s.fmt));
  g.nontrivial(n > 1 && !txt.empty());
}

struct Always { // Without properties that make it optional.
  int n;
};
BufferWriter &
bwformat(BufferWriter &w, bwf::Spec const &, Always const &a)
{
  return w.print("<{}>", a.n);
}

PROPERTY(first_of, 2, "the first isn't used")
{
  g.scaled();
  g.huge();
  auto a = g.str("ab", 4, 1), b = g.str("cd", 4, 1), c = g.str("EF", 4, 1), d = g.str("gh", 4, 1);
  char const *p = g.flip() ? nullptr : c.c_str();
  char *mp      = p ? c.data() : nullptr; // The same, as from an API that isn't const correct.
  char const *const cp = p;
  std::string bb{b};
  char *buff = bb.data();
  TextView tv{d};
  std::string_view sv{b};
  std::string got;
  Style s(g, "sS");
  std::string want = !a.empty() ? a : !b.empty() ? b : p && *p ? std::string(p) : d;
  switch (g.draw(5)) {
  case 3:
    got = render(g, s.fmt, bwf::FirstOf(a, sv, mp, tv));
    break;
  case 4:
    got = render(g, s.fmt, bwf::FirstOf(const_cast<char *>(static_cast<char const *>(nullptr)), a, cp ? b.data() : b.c_str(), cp, d));
    break;
  case 5:
    got = render(g, s.fmt, bwf::FirstOf(a.data(), buff, cp, std::move(d)));
    break;
  case 0:
    got = render(g, s.fmt, bwf::FirstOf(a, sv, p, tv));
    break;
  case 1:
    got = render(g, s.fmt, bwf::FirstOf(nullptr, a, b, nullptr, p, d));
    break;
  case 2:
    got = render(g, s.fmt, bwf::FirstOf(a.c_str(), "", TextView(b), p, std::string_view(d), ""));
    break;
  }
  REQ_EQ(got, ref::string(s.spec, want), "format ", pbt::esc(s.fmt));
  g.nontrivial(a.empty() && !want.empty());
}

PROPERTY(optional, 4, "there is output")
{
  g.scaled();
  g.huge();
  Style s(g, "");
  int n    = int(g.edgy());
  auto txt = g.flip() ? std::string{} : g.str("abc {}", 8);
  auto pad = g.str("[]() :", 4);
  bool flag = g.flip();
  std::string want, got;
  unsigned how = g.draw(8);
  switch (how) {
  case 8: { // neither empty nor convertible, always there.
    auto f = pad + "{}" + pad;
    Always const always{n};
    want = pad + "<" + std::to_string(n) + ">" + pad;
    got  = flag ? render(g, s.fmt, bwf::Optional(TextView(f), always)) : render(g, s.fmt, bwf::Optional(TextView(f), Always{n}));
  } break;
  case 0:
    want = flag ? pad + std::to_string(n) + "/" + txt : "";
    got  = render(g, s.fmt, bwf::If(flag, TextView(pad + "{}/{}"), n, txt));
    break;
  case 1: {
    auto f = pad + "{1} {0:>5} {2}";
    want   = flag ? pad + txt + " " + ref::place([] {
      ref::Spec z;
      z.min = 5;
      return z;
    }(), "", std::to_string(n % 1000), '>') + " 1" : "";
    got    = render(g, s.fmt, bwf::If(flag, TextView(f), n % 1000, txt, flag));
  } break;
  case 2: { // string, has empty
    auto f = pad + "{}" + pad;
    want   = txt.empty() ? "" : pad + txt + pad;
    got    = render(g, s.fmt, bwf::Optional(TextView(f), txt));
  } break;
  case 3: {
    auto f = pad + "{}" + pad;
    want   = txt.empty() ? "" : pad + txt + pad;
    if (g.flip())
      got = render(g, s.fmt, bwf::Optional(TextView(f), std::string_view(txt)));
    else
      got = render(g, s.fmt, bwf::Optional(TextView(f), TextView(txt)));
  } break;
  case 4: { // pointer
    auto f        = pad + "{}" + pad;
    char const *p = flag ? txt.c_str() : nullptr;
    want          = p ? pad + txt + pad : "";
    got           = render(g, s.fmt, bwf::Optional(TextView(f), p));
  } break;
  case 5: { // number - zero is nothing.
    auto f = pad + "{}" + pad;
    if (flag)
      n = 0;
    want = n ? pad + std::to_string(n) + pad : "";
    got  = render(g, s.fmt, bwf::Optional(TextView(f), n));
  } break;
  case 6: { // sub-text, the format of which is the condition.
    auto f = flag ? pad + "{}-{}" : std::string{};
    want   = flag ? pad + txt + "-" + std::to_string(n) : "";
    bwf::SubText sub{TextView(f), std::forward_as_tuple(txt, n)};
    REQ_EQ(bool(sub), !f.empty());
    REQ_EQ(!sub, f.empty());
    got = render(g, s.fmt, sub);
  } break;
  case 7: { // nested, as documented.
    auto a = txt, b = g.str("xy", 3, 1), c = g.str("zw", 3, 1);
    want = "Leading" + (a.empty() ? "" : " " + a) + (b.empty() ? "" : " " + b) + (c.empty() ? "" : " " + c) + ".";
    got  = print_all(g, [&](BufferWriter &w) {
      w.print("Leading{}{}{}.", bwf::Optional(" {}", a), bwf::Optional(" {}", b), bwf::Optional(" {}", std::string_view(c)));
    });
    REQ_EQ(got, want);
    g.nontrivial(want.size() > 8);
    return;
  }
  }
  REQ_EQ(got, ref::plain(s.spec, want), "kind ", how, " format ", pbt::esc(s.fmt));
  g.nontrivial(!want.empty());
}

PROPERTY(errno_value, 3, "a valid error number")
{
  g.scaled();
  g.huge();
  int e = g.chance(85) ? int(g.draw(140)) : int(g.edgy());
  Style s(g, "sSgdxob", g.pick({"s", "l", "sl", "ls"}));
  errno = e;
  std::string name;
  if (e == 0)
    name = "SUCCESS";
  else if (char const *n = e > 0 && e < 134 ? strerrorname_np(e) : nullptr; n)
    name = n;
  else if (e == 41)
    name = "EWOULDBLOCK"; // on some systems.
  else if (e == 58)
    name = "EDEADLOCK";
  else
    name = "Unknown";
  std::string long_name = strerror(e);
  std::string number    = "[" + std::to_string(e) + "]";
  std::string want;
  char t = s.spec.style();
  if (t != 's' && t != 'S' && t != 'g') {
    want = number;
  } else {
    auto const &x = s.spec.ext;
    bool short_p  = x.empty() || x.find('s') != x.npos;
    bool long_p   = x.empty() || x.find('l') != x.npos;
    if (short_p)
      want += name;
    if (short_p && long_p)
      want += ": ";
    if (long_p)
      want += long_name;
    if (t == 'g')
      want += " " + number;
  }
  errno = e;
  bwf::Errno w = g.flip() ? bwf::Errno() : bwf::Errno(e);
  REQ_EQ(w._e, e);
  auto got = render(g, s.fmt, w);
  REQ_EQ(got, ref::plain(s.spec, want), "errno ", e, " format ", pbt::esc(s.fmt));
  g.nontrivial(e >= 0 && e < 134);
}

namespace
{
bool const TZ_SET = [] {
  setenv("TZ", "EST5EDT4,M3.2.0,M11.1.0", 1);
  tzset();
  return true;
}();
} // namespace

PROPERTY(date, 3, "output is not empty and not numeric")
{
  g.scaled();
  g.huge();
  static std::vector<std::string> const ELTS = {"%Y", "%b", "%d", "%H:%M:%S", "%a", "%%", "%j", " ", "-", "T", "%Z", "%z", "%s", "%p", "%F"};
  time_t t = time_t(g.chance(80) ? g.draw(4102444800) : uint64_t(g.edgy_int() >> 20));
  std::string f;
  bool default_p = g.chance(25);
  if (default_p) {
    f = "%Y %b %d %H:%M:%S";
  } else {
    unsigned n = 0, max = g.chance(10) ? 120 : 10;
    while (g.more(max / 2, n, max)) {
      ++n;
      f += g.pick(ELTS);
    }
  }
  Style s(g, "gsdx", g.pick({"local", "gmt", "x"}));
  struct tm tm {};
  if (s.spec.ext == "local")
    localtime_r(&t, &tm);
  else
    gmtime_r(&t, &tm);
  std::string want(65536, ' ');
  want.resize(strftime(want.data(), want.size(), f.c_str(), &tm));
  std::string got;
  Exact e{f + '\0'};
  auto date = default_p ? bwf::Date(t) : g.flip() ? bwf::Date(t, std::string_view(e.p, e.n)) : bwf::Date(t, std::string_view(e.p, e.n - 1));
  got       = render(g, s.fmt, date);
  g.note("time ", (long)t, " date format ", f, " format ", s.fmt);
  if (s.spec.style() == 'd' || s.spec.style() == 'x') {
    REQ_EQ(got, ref::integer(s.spec, t));
  } else {
    REQ_EQ(got, ref::plain(s.spec, want), "time ", (long)t, " date format ", f, " format ", pbt::esc(s.fmt));
    g.nontrivial(!want.empty());
  }
  g.label("long", want.size() > 255);
  if (g.chance(5)) { // text that isn't terminated is rejected.
    bool threw = false;
    try {
      char z[] = "%Y-%m-%d";
      swoc::LocalBufferWriter<100> w;
      w.print("{}", bwf::Date(t, std::string_view(z, 5)));
    } catch (std::invalid_argument const &) {
      threw = true;
    }
    REQ(threw, "unterminated date format");
  }
  if (g.chance(2)) { // the current time.
    auto now = time(nullptr);
    bwf::Date d;
    REQ(d._epoch >= now && d._epoch < now + 60);
    REQ_EQ(std::string(d._fmt), std::string("%Y %b %d %H:%M:%S"));
  }
}

namespace
{
struct Category : public std::error_category {
  const char *
  name() const noexcept override
  {
    return "pbt";
  }
  std::string
  message(int n) const override
  {
    return "message " + std::to_string(n / 2);
  }
};
Category const CATEGORY;
using Kilo = swoc::Scalar<1024, int64_t>;
struct Tag {
  static constexpr std::string_view label{"bytes"};
};
using Tagged = swoc::Scalar<4096, int64_t, Tag>;
} // namespace

PROPERTY(error_code, 3, "a known category")
{
  g.scaled();
  g.huge();
  int e     = g.chance(85) ? int(g.draw(140)) : int(g.edgy());
  auto kind = g.draw(2);
  std::error_code ec(e, kind == 0 ? std::generic_category() : kind == 1 ? std::system_category() : static_cast<std::error_category const &>(CATEGORY));
  Style s(g, "gsSdxXbo");
  std::string want;
  char t = s.spec.style();
  if (t != 'g' && t != 's' && t != 'S') {
    want = ref::integer(s.spec, e);
  } else {
    if (kind < 2 && e >= 0 && e < 134) {
      want = e == 0 ? "SUCCESS" : e == 41 ? "EWOULDBLOCK" : e == 58 ? "EDEADLOCK" : strerrorname_np(e);
      if (t != 'g')
        want = ref::recase(want, t == 'S');
    } else {
      want = ec.message();
    }
    if (t == 'g') {
      auto plain = s.spec;
      plain.min  = 0;
      plain.max  = -1;
      want += " [" + ref::integer(plain, e) + "]";
    }
    want = ref::plain(s.spec, want);
  }
  REQ_EQ(render(g, s.fmt, ec), want, "error ", e, " kind ", kind, " format ", pbt::esc(s.fmt));
  g.nontrivial(kind < 2);
}

PROPERTY(standard, 3, "not the default format, or a bitset")
{
  g.scaled();
  g.huge();
  switch (g.draw(6)) {
  case 0: {
    Style s(g, "");
    auto n = g.edgy();
    std::string want;
    auto run = [&](auto const &bits) {
      for (size_t i = 0; i < bits.size(); ++i)
        want += bits[i] ? '1' : '0';
      REQ_EQ(render(g, s.fmt, bits), ref::plain(s.spec, want), pbt::esc(s.fmt));
    };
    switch (g.draw(3)) {
    case 0:
      run(std::bitset<1>(n));
      break;
    case 1:
      run(std::bitset<17>(n));
      break;
    case 2:
      run(std::bitset<64>(n));
      break;
    default:
      run((std::bitset<130>(n) << 66) | std::bitset<130>(n >> 3));
      break;
    }
    g.nontrivial();
  } break;
  case 1: {
    auto s   = ref::gen_spec(g);
    auto fmt = "{" + ref::text(g, s) + "}";
    auto n   = g.edgy_int() >> g.draw(20);
    std::string got;
    switch (g.draw(4)) {
    case 0:
      got = render(g, fmt, std::chrono::nanoseconds(n));
      break;
    case 1:
      got = render(g, fmt, std::chrono::duration<int64_t, std::ratio<60>>(n));
      break;
    case 2:
      got = render(g, fmt, std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>(std::chrono::seconds(n)));
      break;
    case 3: {
      std::atomic<int64_t> a{n};
      got = print_all(g, [&](BufferWriter &w) { w.print(TextView(fmt), a); });
    } break;
    default:
      got = render(g, fmt, Kilo(int(n)).count());
      REQ_EQ(got, ref::integer(s, int64_t(int(n))), pbt::esc(fmt));
      return;
    }
    REQ_EQ(got, ref::integer(s, n), pbt::esc(fmt), " value ", n);
    g.nontrivial(!s.empty());
  } break;
  case 2: {
    Style s(g, "");
    auto txt = g.str("abc{}", 12);
    g.nontrivial(!s.spec.empty());
    std::string got;
    if (g.flip())
      got = render(g, s.fmt, std::runtime_error(txt));
    else
      got = render(g, s.fmt, std::invalid_argument(txt));
    REQ_EQ(got, ref::plain(s.spec, "Exception - " + txt), pbt::esc(s.fmt));
  } break;
  case 3: { // values with a unit
    int64_t n = g.edgy_int() >> (12 + g.draw(30));
    Kilo k(n);
    Tagged t(n);
    REQ_EQ(render(g, "{}", k), std::to_string(n * 1024));
    REQ_EQ(render(g, "{}", t), std::to_string(n * 4096) + "bytes");
    REQ_EQ(render(g, "{:d}", t), std::to_string(n * 4096));
    ref::Spec x;
    x.type = 'x';
    REQ_EQ(render(g, "{:x}", t), ref::integer(x, n * 4096));
    g.nontrivial();
  } break;
  case 4: { // another writer is its text, even if it overflowed.
    auto s   = ref::gen_spec(g);
    auto fmt = "{" + ref::text(g, s) + "}";
    auto txt = g.str("abcdef", 12);
    size_t cap = g.draw(16);
    Exact e{std::string(cap, '?')};
    swoc::FixedBufferWriter src{e.p, e.n};
    src.write(txt);
    if (s.alignment() == '=' && (s.style() == 's' || s.style() == 'S'))
      s.align = '>', s.zero = false, fmt = "{" + ref::text(g, s) + "}";
    auto want = ref::string(s, txt.substr(0, cap));
    auto got  = print_all(g, [&](BufferWriter &w) { w.print(TextView(fmt), src); });
    REQ_EQ(got, want, pbt::esc(fmt));
    swoc::LocalBufferWriter<8> local;
    local.write(txt);
    got = print_all(g, [&](BufferWriter &w) { w.print(TextView(fmt), static_cast<BufferWriter const &>(local)); });
    REQ_EQ(got, ref::string(s, txt.substr(0, 8)), pbt::esc(fmt));
    g.nontrivial(txt.size() > cap);
  } break;
  case 5: {
    std::atomic<bool> b{g.flip()};
    Style s(g, "sS");
    auto got = print_all(g, [&](BufferWriter &w) { w.print(TextView(s.fmt), b); });
    REQ_EQ(got, ref::boolean(s.spec, b.load()), pbt::esc(s.fmt));
    g.nontrivial(!s.spec.empty());
  } break;
  case 6: { // operator <<
    int n    = int(g.edgy());
    auto txt = g.str("ab{}", 6);
    bool b   = g.flip();
    auto got = print_all(g, [&](BufferWriter &w) { w << txt << ' ' << n << std::string_view(txt) << b << "literal" << TextView(txt); });
    REQ_EQ(got, txt + " " + std::to_string(n) + txt + (b ? "1" : "0") + "literal" + txt);
    g.nontrivial(!txt.empty());
  } break;
  }
}
