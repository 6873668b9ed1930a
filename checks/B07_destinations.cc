// B07 - the output is the same for all destinations.
#include "bwf_util.h"
#include "swoc/ArenaWriter.h"
#include "swoc/Lexicon.h"
#include "swoc/MemArena.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include <sstream>
#include <memory>
using swoc::ArenaWriter;
using swoc::BufferWriter;
using swoc::FixedBufferWriter;
using swoc::MemArena;
using swoc::MemSpan;
using swoc::TextView;
namespace bwf = swoc::bwf;
using pbt::Src;

namespace
{
/// A format and its arguments.
struct Job {
  std::string fmt;
  std::string txt, big;
  int64_t n{0};
  uint64_t u{0};
  double d{0};
  bool b{false};
  void *p{nullptr};
  unsigned specs{0};

  explicit Job(Src &g)
  {
    txt        = g.str("abcdefXYZ {}", 20);
    big        = std::string(g.chance(15) ? 200 + g.draw(9000) : g.draw(64), 'B');
    n          = g.edgy_int();
    u          = g.edgy();
    d          = double(int64_t(g.draw(1000000)) - 500000) / 64;
    b          = g.flip();
    p          = reinterpret_cast<void *>(g.edgy());
    unsigned k = 0;
    while (g.more(5, k, 12)) {
      ++k;
      switch (g.draw(9)) {
      case 0:
      case 1:
        fmt += g.str("xyz .,", 12);
        break;
      case 2:
        fmt += g.flip() ? "{{" : "}}";
        break;
      default: {
        ++specs;
        auto s = ref::gen_spec(g);
        if (g.flip())
          fmt += "{}";
        else if (g.chance(60))
          fmt += "{:" + body(s) + "}";
        else
          fmt += "{" + std::to_string(g.draw(9)) + (s.empty() ? "" : ":" + body(s)) + "}";
      } break;
      }
    }
  }
  std::string
  body(ref::Spec s)
  {
    std::string z;
    if (s.align) {
      if (s.fill >= 0 && s.fill != '%' && s.fill != '{' && s.fill != '}' && s.fill != ':')
        z += char(s.fill);
      z += s.align;
    }
    if (s.prefix)
      z += '#';
    if (s.min)
      z += std::to_string(s.min);
    if (s.prec >= 0)
      z += "." + std::to_string(s.prec);
    if (s.type)
      z += s.type;
    if (s.max >= 0)
      z += "," + std::to_string(s.max);
    return z;
  }
  template <typename F>
  decltype(auto)
  with(F &&f) const
  {
    // Same bytes for all destinations - not the same object because that may be printed as address.
    return f(n, txt, d, b, std::string_view(big), u, bwf::HexDump(txt.data(), txt.size()), p, bwf::If(b, TextView("<{}>"), n),
             bwf::Pattern{int(u & 0x3F), "=-"});
  }
  void
  to(BufferWriter &w) const
  {
    this->with([&](auto const &...args) { w.print(TextView(fmt), args...); });
  }
  void
  to(BufferWriter &w, Src &g) const
  {
    switch (g.draw(3)) {
    case 0:
      this->with([&](auto const &...args) { w.print_v(TextView(fmt), std::forward_as_tuple(args...)); });
      break;
    case 1: {
      bwf::Format f{TextView(fmt)};
      this->with([&](auto const &...args) { w.print(f, args...); });
    } break;
    case 2: {
      bwf::Format f{TextView(fmt)};
      this->with([&](auto const &...args) { w.print_v(f, std::forward_as_tuple(args...)); });
    } break;
    default:
      this->to(w);
      break;
    }
  }
};

/// Output in a buffer that's clearly large enough.
std::string
expected(Job const &job)
{
  static char buff[1 << 23];
  FixedBufferWriter w{buff, sizeof buff};
  job.to(w);
  REQ(!w.error(), "output larger than expected ", w.extent());
  return std::string(std::string_view(w.view()));
}

/// A user defined writer that grows, by asking for the write to be repeated.
struct Growing : public BufferWriter {
  std::unique_ptr<char[]> buff;
  size_t cap, used = 0, step;
  explicit Growing(size_t cap, size_t step) : buff(new char[cap]), cap(cap), step(step) {}
  bool
  grow(size_t n)
  {
    if (n <= cap)
      return false;
    n += n < 4096 ? step : n; // Avoid quadratic time for long output.
    std::unique_ptr<char[]> fresh{new char[n]};
    memcpy(fresh.get(), buff.get(), used);
    buff = std::move(fresh);
    cap  = n;
    return true;
  }
  Growing &
  write(char c) override
  {
    grow(used + 1);
    buff[used++] = c;
    return *this;
  }
  using BufferWriter::write;
  const char *
  data() const override
  {
    return buff.get();
  }
  bool
  error() const override
  {
    return false;
  }
  size_t
  extent() const override
  {
    return used;
  }
  size_t
  capacity() const override
  {
    return cap;
  }
  char *
  aux_data() override
  {
    return buff.get() + used;
  }
  bool
  commit(size_t n) override
  {
    if (grow(used + n))
      return false;
    used += n;
    return true;
  }
  BufferWriter &
  discard(size_t n) override
  {
    used -= std::min(n, used);
    return *this;
  }
  BufferWriter &
  restrict(size_t) override
  {
    return *this;
  }
  BufferWriter &
  restore(size_t) override
  {
    return *this;
  }
  BufferWriter &
  copy(size_t dst, size_t src, size_t n) override
  {
    memmove(buff.get() + dst, buff.get() + src, n);
    return *this;
  }
  std::ostream &
  operator>>(std::ostream &os) const override
  {
    return os << std::string_view(buff.get(), used);
  }
};

template <size_t N>
void
local(Src &g, Job const &job, std::string const &want)
{
  auto w = std::make_unique<swoc::LocalBufferWriter<N>>();
  job.to(*w, g);
  REQ_EQ(std::string(std::string_view(w->view())), want.substr(0, N), "local buffer of ", N);
  REQ_EQ(w->extent(), want.size());
  std::ostringstream os;
  os << *w;
  REQ_EQ(os.str(), want.substr(0, N));
}

/// An arena after some use.
struct Arena {
  std::vector<char> store; // static block
  std::unique_ptr<MemArena> arena;
  std::vector<std::pair<MemSpan<char>, std::string>> live;
  explicit Arena(Src &g)
  {
    if (g.chance(30)) {
      store.resize(200 + g.draw(300));
      arena = std::make_unique<MemArena>(MemSpan<void>(store.data(), store.size()));
    } else {
      arena = std::make_unique<MemArena>(g.flip() ? 0 : g.draw(500));
    }
    unsigned n = 0;
    while (g.more(3, n, 8)) {
      ++n;
      use(g);
    }
    if (g.chance(20)) {
      arena->freeze(g.flip() ? 0 : g.draw(300));
      if (g.flip())
        use(g);
    }
    if (g.chance(30))
      fill(g);
  }
  void
  keep(MemSpan<char> span)
  {
    live.emplace_back(span, std::string(span.data(), span.size()));
  }
  void
  use(Src &g)
  {
    auto span = arena->alloc(g.chance(20) ? g.draw(6000) : g.draw(100), g.flip() ? 1 : 8).rebind<char>();
    for (size_t i = 0; i < span.size(); ++i)
      span[i] = char('a' + (live.size() + i) % 26);
    keep(span);
  }
  /// Leave only a little space.
  void
  fill(Src &g)
  {
    size_t r = arena->remaining(), k = g.draw(20);
    if (r > k) {
      auto span = arena->alloc(r - k).rebind<char>();
      memset(span.data(), '#', span.size());
      keep(span);
    }
  }
  void
  verify()
  {
    for (auto const &[span, txt] : live)
      REQ(std::string_view(span.data(), span.size()) == txt, "allocated memory changed");
  }
};
} // namespace

PROPERTY(formatted, 10, "more than one specifier and output")
{
  g.scaled();
  g.huge();
  Job job{g};
  auto want = expected(job);
  g.note("format ", job.fmt, " text ", job.txt, " big ", job.big.size());
  g.nontrivial(job.specs > 1 && want.size() > 1);
  g.label("long", want.size() > 1000);
  unsigned n = 0;
  do {
    ++n;
    switch (g.draw(9)) {
    case 0: {
      size_t cap = g.flip() ? want.size() : g.draw(want.size() + 20);
      Exact e{std::string(cap, '?')};
      FixedBufferWriter w{e.p, e.n};
      job.to(w, g);
      REQ_EQ(w.extent(), want.size(), "buffer of size ", cap);
      REQ_EQ(std::string(std::string_view(w.view())), want.substr(0, cap));
      REQ_EQ(w.error(), cap < want.size());
    } break;
    case 1:
      g.flip() ? local<16>(g, job, want) : local<1>(g, job, want);
      break;
    case 2:
      local<1024>(g, job, want);
      break;
    case 3:
      local<65536>(g, job, want);
      break;
    case 4: { // string
      std::string s(g.flip() ? g.draw(40) : g.draw(want.size() * 2), 'P');
      if (g.flip())
        s.reserve(g.flip() ? want.size() + g.draw(2) : g.draw(want.size() * 2 + 30));
      if (g.flip())
        s.resize(g.draw(s.size()));
      g.note("string size ", s.size(), " capacity ", s.capacity());
      std::string *r;
      if (g.flip())
        r = &job.with([&](auto const &...args) -> std::string & { return swoc::bwprint(s, TextView(job.fmt), args...); });
      else
        r = &job.with(
          [&](auto const &...args) -> std::string & { return swoc::bwprint_v(s, TextView(job.fmt), std::forward_as_tuple(args...)); });
      REQ(r == &s);
      REQ_EQ(s, want, "printed to a string");
      REQ(s.c_str()[s.size()] == 0);
    } break;
    case 5: { // append
      std::string s(g.draw(40), 'P');
      if (g.flip())
        s.reserve(s.size() + (g.flip() ? want.size() + g.draw(2) : g.draw(want.size() * 2 + 30)));
      g.note("append, string size ", s.size(), " capacity ", s.capacity());
      auto before = s;
      auto &r     = job.with([&](auto const &...args) -> std::string & { return swoc::bwappend(s, TextView(job.fmt), args...); });
      REQ(&r == &s);
      REQ_EQ(s, before + want, "appended to a string");
      REQ(s.c_str()[s.size()] == 0);
    } break;
    case 6: { // growing, by the protocol.
      Growing w{g.draw(50), g.flip() ? 0 : g.draw(10)};
      auto pre = g.str("!", 10);
      w.write(pre);
      job.to(w, g);
      REQ_EQ(std::string(w.buff.get(), w.used), pre + want, "growing writer");
    } break;
    case 7: { // stream
      FixedBufferWriter w{new char[want.size() + 1], want.size() + 1};
      std::unique_ptr<char[]> owner{const_cast<char *>(w.data())};
      job.to(w, g);
      std::ostringstream os;
      auto pre = g.str("!", 3);
      os << pre << w << pre;
      REQ_EQ(os.str(), pre + want + pre, "stream");
      std::ostringstream os2;
      os2 << static_cast<BufferWriter const &>(w);
      REQ_EQ(os2.str(), want, "stream");
      std::ostringstream os3;
      w >> os3;
      REQ_EQ(os3.str(), want, "stream");
    } break;
    case 8: { // another writer
      size_t cap = want.size() + g.draw(4);
      Exact e{std::string(cap, '?')};
      FixedBufferWriter w{nullptr};
      w.assign(MemSpan<char>(e.p, e.n));
      job.to(w, g);
      REQ_EQ(std::string(std::string_view(w.view())), want);
      FixedBufferWriter w2{std::move(w)};
      REQ_EQ(std::string(std::string_view(w2.view())), want);
      REQ_EQ(w.extent(), size_t(0));
      w2.clear();
      job.to(w2, g);
      REQ_EQ(std::string(std::string_view(w2.view())), want, "again");
    } break;
    default: { // arena
      Arena a{g};
      auto before = a.arena->size();
      ArenaWriter w{*a.arena};
      auto pre = g.flip() ? std::string{} : g.str("!", 200, 20);
      w.write(pre);
      g.note("arena ", before, " remaining ", a.arena->remaining());
      job.to(w, g);
      REQ(!w.error(), "arena writer in error");
      REQ_EQ(std::string(std::string_view(w.view())), pre + want, "printed to an arena");
      std::ostringstream os;
      os << w;
      REQ_EQ(os.str(), pre + want);
      a.verify();
      REQ_EQ(a.arena->size(), before, "the writer allocated");
      REQ(w.view().empty() || w.view().data() == a.arena->remnant().data(), "output isn't in the remnant");
      auto mem = a.arena->alloc(w.extent()).rebind<char>();
      REQ_EQ(std::string(mem.data(), mem.size()), pre + want, "output committed");
      a.verify();
    } break;
    }
  } while (g.more(2, n, 6));
}

// Writing to an arena.
PROPERTY(arena_writer, 8, "the arena had to grow and then there was more output, or the writer was restricted")
{
  g.scaled(3, 3);
  g.huge();
  Arena a{g};
  bool grew = false, restricted = false, more = false;
  unsigned rounds = 0;
  do {
    ++rounds;
    ArenaWriter aw{*a.arena};
    BufferWriter &w = aw;
    std::string m;
    size_t held = 0; // restricted
    auto before = a.arena->size();
    unsigned n  = 0;
    REQ_EQ(w.extent(), size_t(0));
    REQ_EQ(w.capacity(), a.arena->remaining());
    while (g.more(8, n, 30)) {
      ++n;
      auto cap    = w.capacity();
      bool growth = false;
      unsigned op = g.draw(11);
      switch (op) {
      case 0:
      case 1: {
        auto s = g.chance(15) ? std::string(g.draw(5000), 'z') : g.bytes(40, 12);
        Exact e{s};
        if (g.flip())
          w.write(e.p, e.n);
        else
          w.write(e.view());
        m += s;
        break;
      }
      case 2: {
        char c = char(g.draw(255));
        w.write(c);
        m += c;
      } break;
      case 3: { // fill to the limit or just past it.
        auto s = std::string(w.remaining() + g.draw(2), 'f');
        if (s.size() < 100000 && m.size() < 200000) {
          w.write(s);
          m += s;
        }
      } break;
      case 4: {
        Job job{g};
        auto want = expected(job);
        job.to(w, g);
        m += want;
        g.note("print ", job.fmt);
      } break;
      case 5: {
        size_t k = g.flip() ? g.small(10) : g.draw(m.size() + 5);
        w.discard(k);
        m.resize(m.size() - std::min(m.size(), k));
      } break;
      case 6: {
        size_t dst = g.draw(m.size() + 2), src = g.draw(m.size() + 2), k = g.draw(m.size() + 2);
        w.copy(dst, src, k);
        auto s = m;
        for (size_t i = 0; i < k && src + i < s.size() && dst + i < s.size(); ++i)
          m[dst + i] = s[src + i];
      } break;
      case 7:
      case 8: { // by hand.
        auto s     = g.bytes(60, 20);
        size_t pad = g.chance(20) ? g.draw(3000) : 0;
        s         += std::string(pad, 'c');
        int tries  = 0;
        while (true) {
          auto span = w.aux_span();
          REQ_EQ(span.size(), w.remaining());
          memcpy(span.data(), s.data(), std::min(span.size(), s.size()));
          bool fit = span.size() >= s.size();
          bool rv  = w.commit(s.size());
          REQ_EQ(rv, fit, "commit of ", s.size(), " in ", span.size());
          if (rv)
            break;
          REQ(w.remaining() >= s.size(), "retry isn't useful");
          REQ_EQ(w.extent(), m.size(), "failed commit");
          REQ_EQ(std::string(std::string_view(aw.view())), m, "failed commit");
          REQ(++tries < 2);
        }
        m += s;
      } break;
      case 9: {
        size_t k = g.draw(std::min<size_t>(w.remaining(), 30));
        w.restrict(k);
        held       += k;
        restricted |= k > 0;
        REQ_EQ(w.capacity(), cap - k);
        cap -= k;
      } break;
      case 10:
        if (held) {
          size_t k = 1 + g.draw(held - 1);
          w.restore(k);
          held -= k;
          REQ_EQ(w.capacity(), cap + k);
          cap += k;
        }
        break;
      case 11: { // Itself.
        if (m.size() < 3000) {
          w.write(aw.view());
          m += m;
        }
      } break;
      }
      growth  = w.capacity() != cap;
      more   |= grew && !growth;
      grew   |= growth;
      g.note("op ", op, " size ", m.size(), " capacity ", w.capacity(), " held ", held);
      REQ(!w.error(), "error, op ", op);
      REQ_EQ(w.extent(), m.size(), "op ", op);
      REQ_EQ(w.size(), m.size(), "op ", op);
      REQ(aw.view() == m, "content after op ", op, " got ", pbt::esc(aw.view()), " expected ", pbt::esc(m));
      REQ(w.capacity() + held <= a.arena->remaining(), "capacity ", w.capacity(), " with ", held, " withheld is more than available, ",
          a.arena->remaining(), ", op ", op);
      REQ(m.empty() || w.data() == a.arena->remnant().data(), "output isn't in the remnant");
      REQ_EQ(a.arena->size(), before, "arena allocation");
    }
    a.verify();
    if (g.chance(70)) { // keep
      auto mem = a.arena->alloc(m.size()).rebind<char>();
      REQ(std::string_view(mem.data(), mem.size()) == m, "committed output");
      a.keep(mem);
    } else if (g.flip()) { // abandon.
      a.use(g);
    }
    if (g.flip())
      a.fill(g);
    a.verify();
  } while (g.more(2, rounds, 5));
  g.nontrivial((grew && more) || restricted);
  g.label("grew", grew);
}
