// B03 - strings, integers, booleans, characters and pointers against a reference formatter.
#include "bwf_util.h"
#include "swoc/MemSpan.h"
using swoc::BufferWriter;
using swoc::MemSpan;
using swoc::TextView;
using pbt::Src;

namespace
{
template <typename I>
void
check_int(Src &g)
{
  I n;
  switch (g.draw(3)) {
  case 0:
    n = I(g.edgy());
    break;
  case 1:
    n = I(g.draw(200));
    break;
  case 2:
    n = std::numeric_limits<I>::max() - I(g.draw(2));
    break;
  default:
    n = std::numeric_limits<I>::min() + I(g.draw(2));
    break;
  }
  auto s    = ref::gen_spec(g);
  auto fmt  = "{" + ref::text(g, s) + "}";
  auto want = ref::integer(s, n);
  g.note("int size ", sizeof(I), " value ", +n, " format ", pbt::esc(fmt), " expect ", pbt::esc(want));
  REQ_EQ(render(g, fmt, n), want, "format ", pbt::esc(fmt), " value ", +n);
  if (s.empty()) {
    REQ_EQ(print_all(g, [&](BufferWriter &w) { w << n; }), want);
  }
  if (g.chance(20)) { // The formatter alone, it aligns or leaves that to the print, but doesn't start and not finish.
    auto full = s, bare = s;
    full.max = bare.max = -1;
    bare.min            = 0;
    auto direct         = print_all(g, [&](BufferWriter &w) { w.format(swoc::bwf::Spec(TextView(fmt).substr(1, fmt.size() - 2)), n); });
    auto a = ref::integer(full, n), b = ref::integer(bare, n);
    REQ(direct == a || (direct == b && s.alignment() != '='), "format of ", +n, " with ", pbt::esc(fmt), " got ", pbt::esc(direct),
        " expected ", pbt::esc(a), " or ", pbt::esc(b));
  }
  g.label("negative", n < 0);
  g.label("filled", s.min && want.size() == s.min);
  g.label("clipped by max", s.max >= 0 && want.size() == size_t(s.max));
  g.nontrivial(!s.empty());
}
} // namespace

PROPERTY(integer, 6, "the specifier is not empty")
{
  g.scaled();
  g.huge();
  switch (g.draw(9)) {
  case 0:
    return check_int<int>(g);
  case 1:
    return check_int<unsigned>(g);
  case 2:
    return check_int<int8_t>(g);
  case 3:
    return check_int<uint8_t>(g);
  case 4:
    return check_int<int16_t>(g);
  case 5:
    return check_int<uint16_t>(g);
  case 6:
    return check_int<long>(g);
  case 7:
    return check_int<unsigned long>(g);
  case 8:
    return check_int<long long>(g);
  default:
    return check_int<unsigned long long>(g);
  }
}

PROPERTY(string, 4, "the specifier is not empty and the text is not empty")
{
  g.scaled();
  g.huge();
  auto s   = ref::gen_spec(g);
  auto fmt = "{" + ref::text(g, s) + "}";
  auto txt = g.chance(70) ? g.str("abcXYZ 019-_", 30, 6) : g.bytes(40, 6);
  auto want = ref::string(s, txt);
  std::string got;
  Exact e{txt};
  unsigned how = g.draw(5);
  g.note("text ", pbt::esc(txt), " format ", pbt::esc(fmt), " expect ", pbt::esc(want), " as ", how);
  switch (how) {
  case 0:
    got = render(g, fmt, std::string_view(e.view()));
    break;
  case 1:
    got = render(g, fmt, TextView(e.view()));
    break;
  case 2:
    got = render(g, fmt, txt);
    break;
  case 3: { // C string
    if (auto n = txt.find('\0'); n != txt.npos)
      txt.resize(n);
    char const *p = txt.c_str();
    char *q       = txt.data();
    char t        = s.style();
    if (t == 'x' || t == 'X' || t == 'p' || t == 'P')
      want = ref::pointer(s, p);
    else
      want = ref::string(s, txt);
    got = g.flip() ? render(g, fmt, p) : render(g, fmt, q);
  } break;
  case 4: { // another buffer
    swoc::FixedBufferWriter src{e.p, e.n};
    src.commit(e.n);
    got = render(g, fmt, static_cast<BufferWriter const &>(src).size() == e.n ? src.view() : TextView{});
  } break;
  case 5: { // literal array
    static const char A[] = "Evil Dave Rulz";
    txt    = A;
    char t = s.style();
    if (t == 'x' || t == 'X' || t == 'p' || t == 'P')
      want = ref::pointer(s, A);
    else
      want = ref::string(s, txt);
    got = render(g, fmt, A);
  } break;
  }
  auto cased = s.prec > 0 ? txt.substr(0, s.prec) : txt;
  if (s.style() == 's' || s.style() == 'S')
    cased = ref::recase(cased, s.style() == 'S');
  REQ(ref::same(s, got, want, cased), "text ", pbt::esc(txt), " format ", pbt::esc(fmt), " got ", pbt::esc(got), " expected ",
      pbt::esc(want));
  if (s.empty()) {
    REQ_EQ(print_all(g, [&](BufferWriter &w) { w << txt; }), txt);
  }
  g.nontrivial(!s.empty() && !txt.empty());
}

PROPERTY(other, 4, "the specifier is not empty")
{
  g.scaled();
  g.huge();
  auto s   = ref::gen_spec(g);
  auto fmt = "{" + ref::text(g, s) + "}";
  std::string got, want, raw;
  unsigned how = g.draw(6);
  g.note("kind ", how, " format ", pbt::esc(fmt));
  switch (how) {
  case 0: { // char is text always.
    char c = char(g.draw(255));
    raw    = std::string(1, c);
    want   = ref::plain(s, raw);
    got    = render(g, fmt, c);
  } break;
  case 1: {
    bool b = g.flip();
    if (s.style() == 's' || s.style() == 'S')
      raw = s.style() == 's' ? (b ? "true" : "false") : (b ? "TRUE" : "FALSE");
    want = ref::boolean(s, b);
    got  = render(g, fmt, b);
  } break;
  case 2: { // pointers
    auto p = reinterpret_cast<void *>(uintptr_t(g.chance(20) ? 0 : g.edgy() >> 1));
    if (p == nullptr && s.style() == 's')
      raw = "null";
    if (p == nullptr && s.style() == 'S')
      raw = "NULL";
    if (s.prec > 0)
      raw = raw.substr(0, s.prec);
    want = ref::pointer(s, p);
    switch (g.draw(2)) {
    case 0:
      got = render(g, fmt, p);
      break;
    case 1:
      got = render(g, fmt, static_cast<void const *>(p));
      break;
    default:
      got = render(g, fmt, static_cast<int *>(p));
      break;
    }
  } break;
  case 3: {
    if (s.style() == 's')
      raw = "null";
    if (s.style() == 'S')
      raw = "NULL";
    if (s.prec > 0)
      raw = raw.substr(0, s.prec);
    want = ref::pointer(s, nullptr);
    got  = g.flip() ? render(g, fmt, nullptr) : render(g, fmt, static_cast<char const *>(nullptr));
  } break;
  case 4: {
    auto data = g.bytes(40, 8);
    Exact e{data};
    auto ss = s;
    want    = ref::span(s, e.p, e.n, 0);
    ss.min = 0, ss.max = -1;
    raw = ref::span(ss, e.p, e.n, 0);
    got = g.flip() ? render(g, fmt, MemSpan<void const>(e.p, e.n)) : render(g, fmt, MemSpan<void>(e.p, e.n));
  } break;
  case 5: {
    auto data = g.bytes(40, 8);
    data.resize(data.size() / 4 * 4);
    Exact e{data};
    auto ss = s;
    ss.min = 0, ss.max = -1;
    if (g.flip()) {
      want = ref::span(s, e.p, e.n, 4);
      raw  = ref::span(ss, e.p, e.n, 4);
      got  = render(g, fmt, MemSpan<uint32_t>(reinterpret_cast<uint32_t *>(e.p), e.n / 4));
    } else {
      want = ref::span(s, e.p, e.n, 2);
      raw  = ref::span(ss, e.p, e.n, 2);
      got  = render(g, fmt, MemSpan<int16_t const>(reinterpret_cast<int16_t const *>(e.p), e.n / 2));
    }
  } break;
  case 6: { // dump
    auto data = g.bytes(40, 8);
    Exact e{data};
    want = ref::dump(s, data);
    got  = render(g, fmt, swoc::bwf::HexDump(e.p, e.n));
  } break;
  }
  REQ(ref::same(s, got, want, raw), "kind ", how, " format ", pbt::esc(fmt), " got ", pbt::esc(got), " expected ", pbt::esc(want));
  g.nontrivial(!s.empty());
}

// The parsed specifier has exactly what is in the text.
PROPERTY(spec, 2, "the specifier is not empty")
{
  g.scaled();
  auto s      = ref::gen_spec(g);
  std::string name;
  if (g.flip())
    name = g.chance(50) ? std::to_string(g.small(20)) : g.str("abcz-_.09", 8);
  auto txt = name + ref::text(g, s);
  Exact e{txt};
  g.note(pbt::esc(txt));
  swoc::bwf::Spec spec;
  if (g.flip())
    REQ(spec.parse(TextView(e.view())));
  else
    spec = swoc::bwf::Spec(TextView(e.view()));
  using A = swoc::bwf::Spec::Align;
  A a     = A::NONE;
  switch (s.alignment()) {
  case '<':
    a = A::LEFT;
    break;
  case '>':
    a = A::RIGHT;
    break;
  case '^':
    a = A::CENTER;
    break;
  case '=':
    a = A::SIGN;
    break;
  }
  REQ_EQ(std::string(spec._name), name);
  bool number = !name.empty() && name.find_first_not_of("0123456789") == name.npos;
  if (number)
    REQ_EQ(spec._idx, atoi(name.c_str()));
  else if (!name.empty())
    REQ_EQ(spec._idx, -1, pbt::esc(txt));
  REQ(spec._align == a, pbt::esc(txt));
  REQ_EQ(int(spec._fill), int(s.fill_char()), pbt::esc(txt));
  REQ_EQ(spec._sign, s.sign ? s.sign : '-', pbt::esc(txt));
  REQ_EQ(spec._radix_lead_p, s.prefix, pbt::esc(txt));
  REQ_EQ(spec._min, s.min, pbt::esc(txt));
  REQ_EQ(spec._prec, s.prec, pbt::esc(txt));
  REQ_EQ(spec._max, s.max < 0 ? std::numeric_limits<unsigned>::max() : unsigned(s.max), pbt::esc(txt));
  REQ_EQ(spec._type, s.style(), pbt::esc(txt));
  REQ_EQ(std::string(spec._ext), s.ext, pbt::esc(txt));
  REQ_EQ(spec.has_numeric_type(), std::string_view("bBdoxX").find(s.style()) != std::string_view::npos);
  REQ_EQ(spec.has_upper_case_type(), std::string_view("BXPS").find(s.style()) != std::string_view::npos);
  REQ_EQ(spec.has_pointer_type(), s.style() == 'p' || s.style() == 'P');
  REQ(spec.has_valid_type());
  for (int c = 0; c < 256; ++c) {
    REQ_EQ(swoc::bwf::Spec::is_type(char(c)), c && std::string_view("gsSxXdobBpP").find(char(c)) != std::string_view::npos, c);
  }
  g.nontrivial(!s.empty());
}
