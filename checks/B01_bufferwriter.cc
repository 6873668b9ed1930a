// B01 - fixed buffer writers against a model: the truncation of an unbounded writer.
#include "util.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include <memory>
#include <vector>
using swoc::FixedBufferWriter;
using swoc::BufferWriter;
using swoc::LocalBufferWriter;
using swoc::MemSpan;
using swoc::TextView;
using pbt::Src;

namespace
{
/// What the writer should be. @a mem is the underlying memory, all of which is known.
struct Model {
  char *base = nullptr;
  std::string mem;         // expected content of the memory behind base
  size_t cap     = 0;      // current capacity.
  size_t top     = 0;      // capacity when nothing is restricted
  size_t extent  = 0;
  size_t
  size() const
  {
    return std::min(cap, extent);
  }
  void
  put(std::string_view s)
  {
    for (char c : s) {
      if (extent < cap)
        mem[extent] = c;
      ++extent;
    }
  }
};

void
verify(BufferWriter &w, Model const &m, char const *op)
{
  REQ_EQ(w.extent(), m.extent, op, " extent");
  REQ_EQ(w.capacity(), m.cap, op, " capacity");
  REQ_EQ(w.size(), m.size(), op, " size");
  REQ_EQ(w.remaining(), m.cap - m.size(), op, " remaining");
  REQ_EQ(w.error(), m.extent > m.cap, op, " error");
  REQ_EQ((void const *)w.data(), (void const *)m.base, op, " data");
  if (m.mem.size())
    REQ_EQ(std::string(m.base, m.mem.size()), m.mem, op, " memory content");
  if (m.cap > m.extent) {
    REQ_EQ((void *)w.aux_data(), (void *)(m.base + m.extent), op, " aux_data");
  }
  auto span = w.aux_span();
  REQ_EQ(span.size(), m.cap - m.size(), op, " aux_span");
  if (span.size())
    REQ_EQ((void *)span.data(), (void *)(m.base + m.extent), op, " aux_span data");
  std::ostringstream os;
  w >> os;
  REQ_EQ(os.str(), m.mem.substr(0, m.size()), op, " to stream");
  std::ostringstream os2;
  os2 << w;
  REQ_EQ(os2.str(), m.mem.substr(0, m.size()), op, " stream <<");
}

void
verify_fixed(FixedBufferWriter &w, Model const &m, char const *op)
{
  verify(w, m, op);
  REQ_EQ(std::string(std::string_view(w.view())), m.mem.substr(0, m.size()), op, " view");
  REQ_EQ(std::string(static_cast<std::string_view>(w)), m.mem.substr(0, m.size()), op);
  REQ_EQ(w.view().size(), m.size(), op);
  TextView tv = w;
  REQ_EQ(std::string(std::string_view(tv)), m.mem.substr(0, m.size()), op);
}

std::string
gen_text(Src &g, size_t cap)
{
  std::string s;
  size_t n = g.chance(10) ? g.small(2 * cap + 4) : g.small(8);
  char c   = g.chance(10) ? '\0' : char('a' + g.draw(25));
  for (size_t i = 0; i < n; ++i)
    s += char(c + i % 7);
  return s;
}

/// An offset which is often interesting.
size_t
gen_off(Src &g, Model const &m)
{
  switch (g.weighted({6, 2, 2, 1, 1})) {
  case 0:
    return g.draw(m.extent + 1);
  case 1:
    return m.extent - std::min<size_t>(m.extent, g.draw(2));
  case 2:
    return m.cap - std::min<size_t>(m.cap, g.draw(2));
  case 3:
    return m.cap + g.draw(3);
  default:
    return g.edgy() >> 1;
  }
}

struct Stats {
  bool overflow = false, restricted = false, moved = false, copied = false, recovered = false;
};

/// One operation through the base class interface.
void
step(Src &g, BufferWriter &w, Model &m, Stats &st)
{
  char const *op = "?";
  switch (g.weighted({6, 8, 3, 4, 2, 4, 3, 3, 6, 3})) {
  case 0: {
    op     = "write(char)";
    char c = char(g.draw(255));
    g.note(op, ' ', int(c));
    REQ(&w.write(c) == &w);
    m.put({&c, 1});
  } break;
  case 1: {
    op = "write(ptr,n)";
    auto s = gen_text(g, m.top);
    Exact e{s};
    g.note(op, ' ', pbt::esc(s));
    REQ(&w.write(e.p, e.n) == &w);
    m.put(s);
  } break;
  case 2: {
    op = "write(span)";
    auto s = gen_text(g, m.top);
    Exact e{s};
    g.note(op, ' ', pbt::esc(s));
    if (g.flip()) {
      w.write(std::string_view(e.p, e.n));
    } else {
      w.write(MemSpan<void const>(e.p, e.n));
    }
    m.put(s);
  } break;
  case 3: { // direct write and commit.
    op     = "aux";
    auto s = gen_text(g, m.top);
    g.note(op, ' ', pbt::esc(s));
    auto span = w.aux_span();
    s.resize(std::min(s.size(), span.size()));
    if (s.size())
      memcpy(span.data(), s.data(), s.size());
    bool r = w.commit(s.size());
    REQ(r, "commit in a fixed buffer");
    m.put(s);
  } break;
  case 4: { // nested writer, as the formatting does.
    op     = "nested";
    auto s = gen_text(g, m.top);
    size_t width = w.remaining();
    if (g.flip())
      width = std::min<size_t>(width, g.small(8));
    g.note(op, ' ', pbt::esc(s), " width ", width);
    FixedBufferWriter lw{w.aux_data(), width};
    if (s.size() > 1 && g.flip()) {
      lw.write(s[0]);
      lw.write(s.data() + 1, s.size() - 1);
    } else {
      lw.write(s.data(), s.size());
    }
    REQ_EQ(lw.extent(), s.size());
    if (lw.error()) { // only commit what was there, or note the lack.
      if (width == w.remaining()) {
        w.commit(lw.extent());
        m.put(s);
      } else {
        w.commit(lw.size());
        m.put(std::string_view(s).substr(0, width));
      }
    } else {
      w.commit(lw.extent());
      m.put(s);
    }
  } break;
  case 5: {
    op       = "discard";
    size_t n = g.chance(5) ? g.edgy() : g.small(m.extent + 2);
    g.note(op, ' ', n);
    REQ(&w.discard(n) == &w);
    m.extent -= std::min(n, m.extent);
  } break;
  case 6: {
    op       = "restrict";
    size_t n = g.chance(15) ? m.cap + 1 + g.small(5) : g.small(m.cap);
    g.note(op, ' ', n);
    bool threw = false;
    try {
      REQ(&w.restrict(n) == &w);
    } catch (std::invalid_argument const &) {
      threw = true;
    }
    REQ_EQ(threw, n > m.cap, "restrict by ", n, " of capacity ", m.cap);
    if (n <= m.cap)
      m.cap -= n;
    st.restricted |= m.cap != m.top;
  } break;
  case 7: {
    op       = "restore";
    size_t n = g.small(m.top - m.cap);
    if (g.flip())
      n = m.top - m.cap;
    g.note(op, ' ', n);
    st.recovered |= m.extent > m.cap;
    REQ(&w.restore(n) == &w);
    if (m.extent > m.cap)
      m.extent = m.cap;
    m.cap += n;
  } break;
  case 8: {
    op         = "copy";
    size_t dst = gen_off(g, m), src = gen_off(g, m);
    size_t n   = g.chance(5) ? g.edgy() : g.chance(10) ? gen_off(g, m) : g.small(m.extent + 1);
    g.note(op, " dst ", dst, " src ", src, " n ", n);
    REQ(&w.copy(dst, src, n) == &w);
    std::string before{m.mem};
    for (size_t i = 0; i < n; ++i) {
      if (dst + i >= m.size() || src + i >= m.extent || dst + i < dst || src + i < src)
        break;
      if (src + i < m.cap)
        m.mem[dst + i] = before[src + i];
      else // copied from what isn't there.
        m.mem[dst + i] = m.base[dst + i];
      st.copied = true;
    }
  } break;
  case 9: { // reserved space, filled later - commit then go back.
    op       = "commit";
    size_t n = g.small(6);
    g.note(op, ' ', n);
    REQ(w.commit(n), "commit in a fixed buffer");
    m.extent += n;
  } break;
  }
  st.overflow |= m.extent > m.cap;
  verify(w, m, op);
}

struct Buffer {
  Exact e;
  explicit Buffer(size_t n) : e(std::string(n, char(0xA5))) {}
};
} // namespace

PROPERTY(fixed, 10, "output exceeded the capacity, or content was copied, or the capacity was restricted")
{
  g.scaled();
  g.huge();
  std::vector<std::unique_ptr<Buffer>> bufs;
  std::vector<std::string> frozen; // expected content of memory not in use.
  auto gen_size = [&] { return g.chance(8) ? g.draw(300) : g.small(24); };
  auto make     = [&](size_t n) -> Model {
    bufs.emplace_back(std::make_unique<Buffer>(n));
    Model m;
    m.base = bufs.back()->e.p;
    m.mem.assign(n, char(0xA5));
    m.cap = m.top = n;
    return m;
  };
  std::unique_ptr<FixedBufferWriter> w;
  Model m;
  std::vector<std::pair<char *, std::string>> old; // memory that was released.
  switch (g.weighted({6, 2, 2, 1})) {
  case 0:
    m = make(gen_size());
    w = std::make_unique<FixedBufferWriter>(m.base, m.top);
    break;
  case 1:
    m = make(gen_size());
    w = std::make_unique<FixedBufferWriter>(MemSpan<char>(m.base, m.top));
    break;
  case 2:
    m = make(gen_size());
    w = std::make_unique<FixedBufferWriter>(MemSpan<void>(m.base, m.top));
    break;
  case 3:
    w = std::make_unique<FixedBufferWriter>(nullptr);
    break;
  }
  verify_fixed(*w, m, "construct");
  Stats st;
  unsigned n = 0;
  while (g.more(15, n, 60)) {
    ++n;
    switch (g.weighted({20, 1, 1, 1, 1, 1})) {
    case 0:
      step(g, *w, m, st);
      break;
    case 1:
      g.note("clear");
      REQ(&w->clear() == w.get());
      m.extent = 0;
      break;
    case 2: {
      g.note("detach");
      old.emplace_back(m.base, m.mem);
      REQ(&w->detach() == w.get());
      m = Model{};
    } break;
    case 3: {
      auto sz = gen_size();
      g.note("assign ", sz);
      old.emplace_back(m.base, m.mem);
      m = make(sz);
      REQ(&w->assign(MemSpan<char>(m.base, m.top)) == w.get());
    } break;
    case 4: {
      g.note("move construct");
      auto w2 = std::make_unique<FixedBufferWriter>(std::move(*w));
      verify_fixed(*w, Model{}, "moved from");
      w->write("lost", 4); // goes nowhere
      w = std::move(w2);
      st.moved = true;
    } break;
    case 5: {
      g.note("move assign");
      Model m2 = make(gen_size());
      FixedBufferWriter w2{m2.base, m2.top};
      w2.write("xyz", 3);
      m2.put("xyz");
      old.emplace_back(m2.base, m2.mem);
      REQ(&(w2 = std::move(*w)) == &w2);
      verify_fixed(*w, Model{}, "moved from");
      verify_fixed(w2, m, "moved to");
      *w       = std::move(w2);
      st.moved = true;
    } break;
    }
    verify_fixed(*w, m, "after");
    for (auto const &[p, s] : old)
      if (s.size())
        REQ_EQ(std::string(p, s.size()), s, "memory no longer in use changed");
  }
  g.label("overflow", st.overflow);
  g.label("restricted", st.restricted);
  g.label("error cleared by restore", st.recovered);
  g.label("copied", st.copied);
  g.label("moved", st.moved);
  g.nontrivial(st.overflow || st.copied || st.restricted);
}

namespace
{
template <size_t N>
void
local(Src &g)
{
  struct W : LocalBufferWriter<N> {
    char *
    arr()
    {
      return this->_arr;
    }
  };
  auto p = std::make_unique<W>();
  memset(p->arr(), 0x5A, N);
  Model m;
  m.base = p->arr();
  m.mem.assign(N, 0x5A);
  m.cap = m.top = N;
  verify_fixed(*p, m, "construct");
  Stats st;
  unsigned n = 0;
  while (g.more(12, n, 40)) {
    ++n;
    if (g.chance(5)) {
      p->clear();
      m.extent = 0;
    } else {
      step(g, *p, m, st);
    }
    verify_fixed(*p, m, "local");
  }
  g.nontrivial(st.overflow || st.copied || st.restricted);
}
} // namespace

PROPERTY(local, 3, "output exceeded the capacity, or content was copied, or the capacity was restricted")
{
  g.scaled();
  g.huge();
  switch (g.draw(4)) {
  case 0:
    return local<16>(g);
  case 1:
    return local<1>(g);
  case 2:
    return local<7>(g);
  case 3:
    return local<64>(g);
  default:
    return local<256>(g);
  }
}

// Writing in pieces is the same as writing all of it, for any capacity: measure, allocate, write.
PROPERTY(measure, 3, "output of more than one piece and not empty")
{
  g.scaled();
  g.huge();
  std::vector<std::string> parts;
  unsigned n = 0;
  while (g.more(6, n, 20)) {
    ++n;
    parts.push_back(g.bytes(20, 5));
  }
  std::string all;
  for (auto const &s : parts)
    all += s;
  auto gen = [&](BufferWriter &w) {
    for (auto const &s : parts) {
      if (s.size() == 1)
        w.write(s[0]);
      else
        w.write(s.data(), s.size());
    }
  };
  FixedBufferWriter measure{nullptr};
  gen(measure);
  REQ_EQ(measure.extent(), all.size());
  REQ_EQ(measure.size(), size_t(0));
  REQ_EQ(measure.error(), all.size() > 0);
  for (size_t cap : {all.size(), all.size() - (all.size() ? 1 : 0), all.size() + 1, size_t(g.draw(all.size()))}) {
    Buffer b{cap};
    FixedBufferWriter w{b.e.p, cap};
    gen(w);
    REQ_EQ(w.extent(), all.size());
    REQ_EQ(w.error(), cap < all.size());
    REQ_EQ(std::string(w.view()), all.substr(0, cap));
  }
  // A null buffer with a size is rejected.
  bool threw = false;
  size_t bad = g.small(100);
  try {
    FixedBufferWriter w{static_cast<char *>(nullptr), bad};
  } catch (std::invalid_argument const &) {
    threw = true;
  }
  REQ_EQ(threw, bad != 0);
  g.nontrivial(parts.size() > 1 && all.size() > 1);
}

namespace
{
/// A concrete writer that has only what must be overridden.
struct Minimal : public BufferWriter {
  std::string s;
  size_t cap;
  size_t ext = 0;
  explicit Minimal(size_t n) : cap(n) {}
  BufferWriter &
  write(char c) override
  {
    if (ext < cap)
      s += c;
    ++ext;
    return *this;
  }
  using BufferWriter::write;
  const char *
  data() const override
  {
    return s.data();
  }
  bool
  error() const override
  {
    return ext > cap;
  }
  size_t
  capacity() const override
  {
    return cap;
  }
  size_t
  extent() const override
  {
    return ext;
  }
  bool
  commit(size_t) override
  {
    return true;
  }
  BufferWriter &
  discard(size_t) override
  {
    return *this;
  }
  BufferWriter &
  restrict(size_t) override
  {
    return *this;
  }
  BufferWriter &
  restore(size_t) override
  {
    return *this;
  }
  BufferWriter &
  copy(size_t, size_t, size_t) override
  {
    return *this;
  }
  std::ostream &
  operator>>(std::ostream &os) const override
  {
    return os << s;
  }
};
} // namespace

// The base class implementations, for a writer that does not override them.
PROPERTY(base_class, 1, "something was written")
{
  g.scaled();
  g.huge();
  Minimal w{g.small(30)};
  std::string all;
  unsigned n = 0;
  while (g.more(6, n, 20)) {
    ++n;
    auto s = g.bytes(12, 4);
    switch (g.draw(2)) {
    case 0:
      w.write(s.data(), s.size());
      break;
    case 1:
      w.write(std::string_view(s));
      break;
    case 2:
      s.resize(1);
      w.write(s[0]);
      break;
    }
    all += s;
    REQ_EQ(w.extent(), all.size());
    REQ_EQ(w.size(), std::min(all.size(), w.cap));
    REQ_EQ(w.remaining(), w.cap - w.size());
    REQ_EQ(w.s, all.substr(0, w.cap));
    REQ(w.aux_data() == nullptr);
  }
  g.nontrivial(all.size() > 0);
}

PROPERTY(counting, 1, "the extent is more than 4 GiB")
{
  // What does not fit is not read, therefore the amount of output is not limited by memory.
  size_t cap = g.flip() ? 0 : g.draw(40);
  Buffer b{cap};
  FixedBufferWriter w{cap ? b.e.p : nullptr, cap};
  std::string all(cap, 'x');
  if (cap)
    w.write(all.data(), all.size());
  size_t extent = cap;
  static char const source[64] = "text";
  for (unsigned i = 0; g.more(6, i, 30); ++i) {
    size_t n = (size_t(1) << g.pick({0, 4, 7, 8, 15, 16, 31, 32, 33, 40})) + g.draw(4) - 2;
    if (int64_t(n) < 0)
      n = 0;
    switch (g.draw(4)) {
    case 0:
      w.write(source, n);
      break;
    case 1:
      w.write(MemSpan<void const>(source, n));
      break;
    case 2:
      w.write(std::string_view(source, n));
      break;
    case 3:
      n = 1;
      w.write('c');
      break;
    default: // take back some of the excess
      n = std::min(n, extent - cap);
      w.discard(n);
      extent -= 2 * n;
      break;
    }
    extent += n;
    g.note("by ", n, " to ", extent);
    REQ_EQ(w.extent(), extent, "extent");
    REQ_EQ(w.size(), std::min(cap, extent), "size");
    REQ_EQ(w.error(), extent > cap, "error");
    REQ_EQ(w.remaining(), size_t(0), "remaining");
    REQ_EQ(std::string(w.view()), all, "content");
  }
  g.nontrivial(extent > (size_t(1) << 32));
}
