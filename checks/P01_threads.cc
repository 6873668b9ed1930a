// P01 - distinct objects can be used, and one object read, from several threads at once.
//
// A case is a script of operations for each of several threads. In a process of its own the scripts
// are run concurrently and then one after the other, and each operation must have the same
// result. This is built with ThreadSanitizer, which reports any unsynchronized sharing inside the
// library. The worker itself never uses the library, so every case starts with nothing initialized
// on first use.
#include "pbt.h"
#include <arpa/inet.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <csignal>
#include <deque>
#include <fstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <variant>
#include <limits>
#include "swoc/ArenaWriter.h"
#include "swoc/BufferWriter.h"
#include "swoc/Errata.h"
#include "swoc/IPEndpoint.h"
#include "swoc/IPSrv.h"
#include "swoc/IntrusiveDList.h"
#include "swoc/IntrusiveHashMap.h"
#include "swoc/Lexicon.h"
#include "swoc/MemArena.h"
#include "swoc/Scalar.h"
#include "swoc/TextView.h"
#include "swoc/Vectray.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_ip.h"
#include "swoc/bwf_std.h"
#include "swoc/ext/HashFNV.h"
#include "swoc/swoc_file.h"
#include "swoc/swoc_ip.h"
#include "swoc/swoc_meta.h"
using pbt::Src;
using namespace swoc;
using namespace std::literals;
using swoc::literals::operator""_tv;

extern "C" const char *
__tsan_default_options()
{
  return "halt_on_error=1:exitcode=86:die_after_fork=0:atexit_sleep_ms=0:symbolize=0:report_signal_unsafe=0:history_size=4";
}

// C functions that return a pointer to storage shared by all threads. That is out of sight of the
// sanitizer in the C library, so these put it where it can be seen.
#include <ctime>
extern "C" {
struct tm *
gmtime(time_t const *t)
{
  static struct tm buff;
  struct tm x;
  gmtime_r(t, &x);
  buff = x;
  return &buff;
}
struct tm *
localtime(time_t const *t)
{
  static struct tm buff;
  struct tm x;
  localtime_r(t, &x);
  buff = x;
  return &buff;
}
char *
asctime(struct tm const *t)
{
  static char buff[100];
  char x[100];
  asctime_r(t, x);
  memcpy(buff, x, sizeof(buff));
  return buff;
}
char *
ctime(time_t const *t)
{
  return asctime(localtime(t));
}
char *
strtok(char *s, char const *delim)
{
  static char *at;
  return strtok_r(s, delim, &at);
}
}

namespace
{
struct Item {
  std::string name;
  unsigned n  = 0;
  Item *_next = nullptr;
  Item *_prev = nullptr;
  static Item *&next_ptr(Item *i) { return i->_next; }
  static Item *&prev_ptr(Item *i) { return i->_prev; }
  static std::string_view key_of(Item *i) { return i->name; }
  static size_t hash_of(std::string_view s) { return Hash64FNV1a().hash_immediate(s); }
  static bool equal(std::string_view a, std::string_view b) { return a == b; }
};
using Table = IntrusiveHashMap<Item>;
using List  = IntrusiveDList<IntrusiveLinkage<Item>>;

struct Ctx {
  int n = 7;
  std::string tag{"tag"};
};
using Context = bwf::ContextNames<Ctx const>;

enum class Color { NONE, RED, GREEN, BLUE };

struct Op {
  unsigned kind;
  uint64_t a, b;
  std::string text;
};
struct Script {
  std::vector<Op> ops;
  std::vector<std::string> out;
};

std::string
name_of(uint64_t n)
{
  return "name" + std::to_string(n % 40);
}
IP4Addr
addr4(uint64_t n)
{
  return IP4Addr(in_addr_t(0x0A000000 + n % 4096));
}
IP6Addr
addr6(uint64_t n)
{
  in6_addr a{};
  a.s6_addr[0]  = 0xFE;
  a.s6_addr[1]  = 0x80;
  a.s6_addr[14] = uint8_t(n >> 8) & 0xF;
  a.s6_addr[15] = uint8_t(n);
  return IP6Addr(a);
}

/// What is read by every thread.
struct Shared {
  IPSpace<unsigned> space;
  IPRangeSet set;
  Lexicon<Color> lex{{{Color::NONE, {"none", "nil"}}, {Color::RED, {"red", "rouge", "1"}}, {Color::GREEN, {"green"}}, {Color::BLUE, {"blue", "bleu"}}}};
  Lexicon<Color> plain{{{Color::RED, "red"}, {Color::GREEN, "green"}}};
  std::deque<Item> items;
  Table table;
  List list;
  Errata errata;
  MemArena arena;
  TextView arena_text;
  std::vector<bwf::Format> formats;
  Context names;
  bwf::ExternalNames externals;
  IPRange range;
  TextView text{"alpha, bravo ; charlie = 17, 0x1F, delta"};
  std::string dir;

  explicit Shared(std::vector<uint64_t> const &seed, std::string d) : dir(std::move(d))
  {
    lex.set_default(Color::NONE).set_default("unknown");
    plain.set_default(Lexicon<Color>::UnknownNameHandler([](TextView s) { return s.size() & 1 ? Color::RED : Color::NONE; }));
    plain.set_default(Lexicon<Color>::UnknownValueHandler([](Color c) { return c == Color::NONE ? TextView("none") : TextView("other"); }));
    for (auto n : seed) {
      switch (n % 3) {
      case 0:
        space.mark(IPRange(IP4Range(addr4(n >> 8), addr4((n >> 8) | 0x7F))), unsigned(n));
        set.mark(IPRange(IP4Range(addr4(n >> 8), addr4((n >> 8) | 0x3F))));
        break;
      case 1:
        space.fill(IPRange(IP6Range(addr6(n >> 8), addr6((n >> 8) | 0xFF))), unsigned(n));
        set.fill(IPRange(IP6Range(addr6(n >> 8), addr6((n >> 8) | 0xFF))));
        break;
      case 2:
        items.emplace_back();
        items.back().name = name_of(n >> 8);
        items.back().n    = unsigned(n >> 16);
        break;
      }
      errata.note(Errata::Severity(n % 4), "note {}", n);
    }
    for (auto &i : items)
      table.insert(&i);
    errata.assign(std::error_code(EPERM, std::system_category()));
    arena_text = localize("some text in an arena");
    for (auto f : {"{}", "{0:>12}|{1:<5}|", "{0} {0:x} {2} {n}", "{:*^20} {:s} {:.2}", "{1::ext} {7} {tag:>10}"})
      formats.emplace_back(f);
    names.assign("n", [](BufferWriter &w, bwf::Spec const &s, Ctx const &c) -> BufferWriter & { return bwformat(w, s, c.n); });
    names.assign("tag", [](BufferWriter &w, bwf::Spec const &s, Ctx const &c) -> BufferWriter & { return bwformat(w, s, c.tag); });
    externals.assign("ext", [](BufferWriter &w, bwf::Spec const &s) -> BufferWriter & { return bwformat(w, s, "external"sv); });
    range.load("10.0.0.3-10.0.1.77");
  }
  TextView
  localize(TextView s)
  {
    auto span = arena.alloc_span<char>(s.size());
    memcpy(span.data(), s.data(), s.size());
    return {span.data(), span.size()};
  }
};

char const *const DATES[] = {"%Y-%m-%d", "%H:%M:%S", "%Y %b %d"};

struct CountSink : Errata::Sink {
  void
  operator()(Errata const &e) const override
  {
    N.fetch_add(e.length(), std::memory_order_relaxed);
  }
  static inline std::atomic<size_t> N{0};
};

template <typename... A>
std::string
fmt(TextView f, A &&...a)
{
  std::string s;
  bwprint(s, f, std::forward<A>(a)...);
  return s;
}

// Each is an operation that uses only its own objects, or only reads what is shared.
using Fn = void (*)(std::string &, Op const &, Shared const &);
Fn const OPS[] = {
  // -- formatting
  [](std::string &r, Op const &o, Shared const &) {
    r = fmt("{} {:x} {:>12} {:#b} {:,6} {:c}", o.a, o.b, int(o.a), o.b, o.a, char('a' + o.b % 26));
  },
  [](std::string &r, Op const &o, Shared const &) { r = fmt("{9} {0} {0:*^30} {pbt} {missing::x}", o.text); },
  [](std::string &r, Op const &o, Shared const &) {
    double d = double(int64_t(o.a)) / double(o.b ? o.b : 1);
    r        = fmt("{} {:.5} {:>20.2} {}", d, d, float(d), 1 / (o.b ? d : 0.0));
  },
  [](std::string &r, Op const &o, Shared const &) {
    void *p = reinterpret_cast<void *>(o.a);
    r       = fmt("{} {::x} {:p} {:x}", p, bwf::As_Hex(o.text), p, MemSpan<void const>(o.text.data(), o.text.size())) + fmt("{}", bwf::UnHex("414243"sv));
  },
  [](std::string &r, Op const &o, Shared const &) {
    r = fmt("{} {:s} {:d} {}", bwf::Errno(int(o.a % 140)), bwf::Errno(int(o.b % 140)), bwf::Errno(int(o.a % 7000)),
            std::error_code(int(o.b % 140), o.a & 1 ? std::system_category() : static_cast<std::error_category const &>(std::generic_category())));
  },
  [](std::string &r, Op const &o, Shared const &) {
    r = fmt("{} {:local} {::%Y} {::gmt}", bwf::Date(time_t(o.a % 4000000000u), DATES[o.b % 3]), bwf::Date(time_t(o.b % 4000000000u), DATES[o.a % 3]),
            bwf::Date(time_t(o.a % 4000000000u)), bwf::Date(time_t(o.a % 4000000000u)));
  },
  [](std::string &r, Op const &o, Shared const &) {
    r = fmt("{} {} {} {}", bwf::If(o.a & 1, "yes {}", o.b), bwf::Optional(" [{}]", o.text), bwf::FirstOf("", o.text, "last"),
            bwf::Pattern{int(o.a % 7), "-="});
    r += fmt("{}", bwf::SubText(TextView("sub {} {}"), std::forward_as_tuple(o.a, o.text)));
  },
  [](std::string &r, Op const &o, Shared const &) {
    // Names with a value per thread - only that these do not interfere.
    std::string s = fmt("{thread-id} {thread-name} {timestamp} {epoch} {now} {tick}");
    r             = s.empty() ? "empty" : fmt("{pbt:>8} {pbt2}");
    (void)o;
  },
  // -- addresses
  [](std::string &r, Op const &o, Shared const &) {
    IPAddr a(o.a & 1 ? IPAddr(addr4(o.b)) : IPAddr(addr6(o.b)));
    IPAddr back;
    std::string s = fmt("{}", a);
    back.load(s);
    r = fmt("{} {::a} {::x} {::=} {} {}", a, a, a, a, a == back, IPAddr(o.text.c_str()).is_valid()) + s;
  },
  [](std::string &r, Op const &o, Shared const &) {
    IPEndpoint e;
    e.parse(o.a & 1 ? "10.1.2.3:4443" : "[fe80::17]:88");
    e.port(&e.sa) = htons(uint16_t(o.b));
    r = fmt("{} {::ap} {::f} {}", e, e, e, &e.sa);
    IPSrv srv(fmt("{}", e));
    r += fmt(" {} {}", srv, srv.is_valid());
    TextView host, port, rest;
    if (IPEndpoint::tokenize("host.com:80/x", &host, &port, &rest))
      r += fmt(" {}|{}|{}", host, port, rest);
  },
  [](std::string &r, Op const &o, Shared const &) {
    IPRange x;
    x.load(o.a & 1 ? "172.16.0.0/12" : "fe80::1-fe80::1:17");
    IP4Range y(addr4(o.a), addr4(o.a | o.b));
    r = fmt("{} {} {}", x, y, x.network_mask().is_valid());
    for (auto &&net : x.networks())
      r += fmt(" {}", net);
    for (auto &&net : y.networks())
      r += fmt(" {}", net);
  },
  // -- Errata
  [](std::string &r, Op const &o, Shared const &) {
    Errata e(std::error_code(int(o.a % 40), std::system_category()), Errata::Severity(o.b % 5), "text {}", o.text);
    e.note("more {}", o.b).note(Errata::Severity(o.a % 5), "severe");
    Errata inner(Errata::Severity(o.a % 4), "inner");
    inner.note(o.text);
    e.note(inner).note(std::move(inner));
    r = fmt("{} {} {} {}", e.length(), e.is_ok(), int(e.severity()), e);
    Rv<int> rv{int(o.a), std::move(e)};
    rv.note("rv");
    r += fmt("{} {}", rv.result(), rv.errata());
    Errata f(std::move(rv.errata()));
    f.sink();
  },
  [](std::string &r, Op const &o, Shared const &s) {
    r = fmt("{} {} {} {}", s.errata, s.errata.length(), s.errata.is_ok(), s.errata.code().value());
    for (auto const &n : s.errata)
      r += n.text();
    Errata mine;
    mine.note(s.errata);
    r += fmt("{}{}", mine, o.a);
  },
  // -- memory
  [](std::string &r, Op const &o, Shared const &) {
    MemArena arena(o.a % 300);
    std::vector<MemSpan<char>> spans;
    for (unsigned i = 0; i < 6; ++i) {
      auto s = arena.alloc_span<char>((o.b >> (i * 3)) % 700);
      memset(s.data(), 'a' + i, s.size());
      spans.push_back(s);
      if (i == 3)
        arena.freeze(o.b % 100);
    }
    size_t n = 0;
    for (auto s : spans)
      for (char c : s)
        n += c;
    arena.thaw();
    auto *p = arena.make<std::pair<int, int>>(int(o.a % 9), 2);
    r       = fmt("{} {} {} {} {}", n, arena.size(), arena.allocated_size(), p->first, arena.reserved_size() >= arena.size());
    FixedArena<Item> fixed(arena);
    auto *i1 = fixed.make();
    i1->name = o.text;
    fixed.destroy(i1);
    auto *i2 = fixed.make();
    r += i1 == i2 ? "same" : "other";
    fixed.destroy(i2);
  },
  [](std::string &r, Op const &o, Shared const &s) {
    r = fmt("{} {} {} {}", s.arena.size(), s.arena.contains(s.arena_text.data()), s.arena.contains(&r), s.arena_text);
    MemArena a;
    ArenaWriter w(a);
    w.print("{} and {}", o.a, o.text);
    r += w.view();
    Vectray<std::string, 3> v;
    for (unsigned i = 0; i < o.b % 9; ++i)
      v.push_back(o.text);
    r += fmt("{}", v.size());
    for (auto const &x : v)
      r += x;
  },
  // -- address containers
  [](std::string &r, Op const &o, Shared const &s) {
    for (unsigned i = 0; i < 8; ++i) {
      uint64_t n = (o.a >> (7 * i)) + i;
      if (auto spot = s.space.find(addr4(n)); spot != s.space.end()) {
        auto const &[range, v] = *spot;
        r += fmt("{}={} ", range, v);
      }
      if (auto spot = s.space.find(IPAddr(addr6(n))); spot != s.space.end()) {
        auto const &[range, v] = *spot;
        r += fmt("{}={} ", range, v);
      }
      r += s.set.contains(IPAddr(addr4(n))) ? '+' : '-';
      r += s.set.contains(IPAddr(addr6(n))) ? '+' : '-';
    }
    r += fmt("{} {}", s.space.count(), s.set.count());
  },
  [](std::string &r, Op const &, Shared const &s) {
    for (auto const &[range, v] : s.space)
      r += fmt("{}={} ", range, v);
    for (auto const &range : s.set)
      r += fmt("{} ", range);
    for (auto spot = s.space.end(); spot != s.space.begin();) {
      --spot;
      r += fmt("{} ", std::get<1>(*spot));
    }
    for (auto &&net : s.range.networks())
      r += fmt(" {}", net);
  },
  [](std::string &r, Op const &o, Shared const &) {
    IPSpace<unsigned> space;
    IPRangeSet set;
    for (unsigned i = 0; i < 6; ++i) {
      uint64_t n = o.b >> (6 * i);
      IPRange range(IP4Range(addr4(n), addr4(n | 0x1F)));
      switch ((o.a >> (i * 2)) % 4) {
      case 0:
        space.mark(range, i);
        break;
      case 1:
        space.fill(range, i);
        break;
      case 2:
        space.erase(range);
        break;
      case 3:
        space.blend(range, i, [](unsigned &lhs, unsigned rhs) {
          lhs += rhs;
          return lhs % 3 != 0;
        });
      }
      set.mark(range);
    }
    for (auto const &[range, v] : space)
      r += fmt("{}={} ", range, v);
    r += fmt("{}", set.count());
  },
  // -- other containers
  [](std::string &r, Op const &o, Shared const &s) {
    r = fmt("{} {} {} {}", s.lex[Color(o.a % 4)], int(s.lex[o.b & 1 ? TextView("ROUGE") : TextView("bleu")]), int(s.lex[TextView(o.text)]), s.lex.count());
    r += fmt(" {} {}", s.plain[Color(o.a % 4)], int(s.plain[TextView(o.text)]));
    for (auto const &[v, n] : s.lex)
      r += fmt(" {}:{}", int(v), n);
  },
  [](std::string &r, Op const &o, Shared const &s) {
    for (unsigned i = 0; i < 8; ++i) {
      std::string name = name_of(o.a >> (i * 6));
      if (auto spot = s.table.find(name); spot != s.table.end())
        r += fmt("{}={} ", spot->name, spot->n);
      size_t n = 0;
      for ([[maybe_unused]] auto const &x : s.table.equal_range(name))
        ++n;
      r += fmt("{} ", n);
    }
    r += fmt("{} ", s.table.count());
    for (auto const &x : s.table)
      r += x.name;
  },
  [](std::string &r, Op const &o, Shared const &) {
    std::deque<Item> items(3 + o.a % 30);
    Table table(3);
    for (unsigned i = 0; i < items.size(); ++i) {
      items[i].name = name_of(o.b >> (i % 50));
      table.insert(&items[i]);
    }
    auto spot = table.find(items[0].name);
    table.erase(spot);
    for (auto const &x : table)
      r += x.name;
    table.clear();
    List l;
    for (auto &i : items)
      o.b & 1 ? l.append(&i) : l.prepend(&i);
    l.erase(&items[1]);
    for (auto const &x : l)
      r += x.name;
    l.clear();
    Lexicon<Color> lex{{Color::RED, {"red", o.text + "x"}}};
    r += fmt("{}", int(lex[TextView(o.text + "X")]));
  },
  // -- shared formats and names
  [](std::string &r, Op const &o, Shared const &s) {
    Ctx ctx{int(o.a), o.text};
    LocalBufferWriter<256> w;
    w.print_nfv(const_cast<Context &>(s.names).bind(ctx), s.formats[o.b % s.formats.size()].bind(), bwf::ArgTuple{std::forward_as_tuple(o.a, o.text, 3)});
    r = w.view();
    w.clear();
    w.print_nfv(s.externals, bwf::Format::bind("{ext:>12} {ext}"), bwf::ArgTuple{std::forward_as_tuple()});
    r += w.view();
  },
  [](std::string &r, Op const &o, Shared const &s) {
    for (auto const &f : s.formats) {
      LocalBufferWriter<256> w;
      w.print(f, o.a, o.text, "z"sv, 4, 5, 6, 7, 8);
      r += w.view();
    }
    bwf::Format own("{} {n} {:>9}");
    r += fmt(own.is_literal() ? "lit" : "fmt");
  },
  // -- text
  [](std::string &r, Op const &o, Shared const &s) {
    TextView t{s.text};
    while (t) {
      TextView tok = t.take_prefix_at(",;="_tv).trim_if(&isspace);
      TextView parsed;
      auto n = svtoi(tok, &parsed);
      auto u = svtou(tok, nullptr, 16);
      r += fmt("{}|{}|{}|{} ", tok, n, parsed, u);
    }
    r += fmt("{} {} {}", svtod(o.text), strcasecmp(TextView(o.text), s.text), Hash32FNV1a().hash_immediate(TextView(o.text)));
    for (char c : transform_view_of(&toupper, TextView(o.text)))
      r += c;
    r += fmt(" {}", round_up<10>(o.a % 100000));
    int x = 3;
    {
      meta::let save(x, int(o.a));
      r += fmt(" {}", x);
    }
    r += std::visit(meta::vary{[](int n) { return fmt("int {}", n); }, [](std::string const &s) { return s; }},
                    o.b & 1 ? std::variant<int, std::string>(x) : std::variant<int, std::string>(o.text));
  },
  // -- files
  [](std::string &r, Op const &o, Shared const &s) {
    file::path p{s.dir};
    std::error_code ec;
    auto f    = p / TextView(name_of(o.a % 4));
    auto st   = file::status(f, ec);
    auto text = file::load(f, ec);
    r         = fmt("{} {} {} {} {}", f.string(), ec, file::exists(st), file::file_size(st), text);
    r += file::absolute(file::path("x/../y"), ec).string() + file::canonical(p, ec).string() + file::temp_directory_path().string();
    auto d = p / TextView(fmt("own{}", o.b)); // unique per operation
    r += fmt("{} {}", file::create_directories(d / "deeper", ec, 0755), ec);
    file::copy(f, d / "copy", ec);
    r += fmt("{} {} {}", ec, file::load(d / "copy", ec), file::remove_all(d, ec));
  },
};
void
apply(std::string &r, Op const &o, Shared const &s)
{
  try {
    OPS[o.kind](r, o, s);
  } catch (std::exception const &x) {
    r += x.what();
  }
}
constexpr unsigned N_OPS = sizeof(OPS) / sizeof(OPS[0]);

constexpr size_t MSG = 2000;
char *
message()
{
  static char *m = static_cast<char *>(mmap(nullptr, MSG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return m;
}

/// Everything that uses the library.
int
run(std::vector<Script> &scripts, std::vector<uint64_t> const &seed, std::string const &dir, unsigned repeat)
{
  static std::array<TextView, 4> severities{"Info", "Warn", "Error", "Fatal"};
  Errata::SEVERITY_NAMES = MemSpan<TextView const>(severities.data(), severities.size());
  Errata::register_sink(Errata::Sink::Handle(new CountSink));
  bwf::Global_Names.assign("pbt", [](BufferWriter &w, bwf::Spec const &s) -> BufferWriter & { return bwformat(w, s, 17); });
  bwf::Global_Names.assign("pbt2", [](BufferWriter &w, bwf::Spec const &s) -> BufferWriter & { return bwformat(w, s, "two"sv); });
  Shared shared(seed, dir);

  for (unsigned i = 0; i < repeat; ++i) {
    std::atomic<unsigned> ready{0};
    std::vector<std::thread> threads;
    for (auto &s : scripts) {
      s.out.assign(s.ops.size(), {});
      threads.emplace_back([&] {
        ready.fetch_add(1);
        while (ready.load(std::memory_order_relaxed) < scripts.size())
          ;
        for (size_t j = 0; j < s.ops.size(); ++j)
          apply(s.out[j], s.ops[j], shared);
      });
    }
    for (auto &t : threads)
      t.join();
    for (size_t k = 0; k < scripts.size(); ++k)
      for (size_t j = 0; j < scripts[k].ops.size(); ++j) {
        auto const &o = scripts[k].ops[j];
        std::string want;
        apply(want, o, shared);
        if (want != scripts[k].out[j]) {
          snprintf(message(), MSG, "thread %zu operation %zu (kind %u): with other threads \"%s\" alone \"%s\"", k, j, o.kind,
                   pbt::esc(scripts[k].out[j]).substr(0, 700).c_str(), pbt::esc(want).substr(0, 700).c_str());
          return 1;
        }
      }
  }
  return 0;
}

std::string const &
scratch()
{
  static std::string dir = [] {
    char const *base = getenv("PBT_SCRATCH");
    std::string d    = std::string(base ? base : "/tmp") + "/files";
    mkdir(d.c_str(), 0777);
    for (int i = 0; i < 3; ++i) {
      std::string name = d + "/name" + std::to_string(i);
      if (access(name.c_str(), F_OK) != 0) {
        std::string tmp = name + "." + std::to_string(getpid());
        std::ofstream(tmp) << "content of " << i << std::string(i * 500, '.');
        rename(tmp.c_str(), name.c_str());
      }
    }
    return d;
  }();
  return dir;
}

} // namespace

PROPERTY(threads, 1, "two or more threads run an operation of the same kind")
{
  std::vector<uint64_t> seed;
  while (g.more(6, seed.size(), 20))
    seed.push_back(g.draw(0xFFFFFF));
  std::vector<unsigned> palette;
  for (unsigned i = 0, n = 1 + g.draw(3); i < n; ++i)
    palette.push_back(g.draw(N_OPS - 1));
  std::vector<Script> scripts(2 + g.draw(2));
  std::vector<unsigned> used(N_OPS);
  static std::atomic<unsigned> unique{0};
  for (auto &s : scripts) {
    std::vector<bool> mine(N_OPS);
    for (unsigned n = 0; n == 0 || g.more(4, n, 10); ++n) {
      Op o;
      o.kind = g.chance(15) ? unsigned(g.draw(N_OPS - 1)) : g.pick(palette);
      o.a    = g.edgy();
      o.b    = o.kind == N_OPS - 1 ? uint64_t(getpid()) * 100000 + ++unique % 100000 : g.edgy();
      o.text = g.str("abcxyz019 ,.-:/", 24, 8);
      mine[o.kind] = true;
      g.note("thread ", &s - scripts.data(), " op ", o.kind, " a ", o.a, " b ", o.b, " \"", pbt::esc(o.text), "\"");
      s.ops.push_back(std::move(o));
    }
    for (unsigned k = 0; k < N_OPS; ++k)
      used[k] += mine[k];
  }
  g.nontrivial(*std::max_element(used.begin(), used.end()) > 1);
  g.label("4 threads", scripts.size() == 4);

  message()[0]    = 0;
  auto const &dir = scratch();
  pid_t parent    = getpid();
  pid_t pid       = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() != parent)
      _exit(0);
    alarm(60);
    _exit(run(scripts, seed, dir, g._mode == Src::REPLAY ? 8 : 1));
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 1)
    throw pbt::Failure{message()};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 86)
    throw pbt::Failure{"unsynchronized access by two threads"};
  throw pbt::Failure{WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))};
}
