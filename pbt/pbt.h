// A small property based testing engine.
//
// A property is a function taking a `pbt::Src` - a source of bounded integer choices. Everything a
// case does is a function of those choices, so
//   - a run is a function of the code under test and the seed,
//   - a failing case is a list of integers, which is what is shrunk and what a replay file contains.
// Zero is the simplest value of every choice, which is what shrinking relies on.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <string_view>
#include <sstream>
#include <vector>
#include <array>
#include <functional>
#include <type_traits>
#include <limits>

namespace pbt
{
struct Failure {
  std::string msg;
};
struct Discard {
};

/// xoshiro256**
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1);
  uint64_t next();
};

class Src
{
public:
  using word = uint64_t;

  // --- primitive: a value in [0,max], inclusive.
  word draw(word max);

  // --- integers
  /// Uniform in [lo, hi], simplest is lo.
  template <typename T>
  T
  range(T lo, T hi)
  {
    return T(word(lo) + this->draw(word(hi) - word(lo)));
  }
  /// Biased to small values, in [0,max]
  word small(word max);
  /// true with probability @a num / @a den. False is the simple choice.
  bool
  chance(unsigned num, unsigned den = 100)
  {
    return this->draw(den - 1) >= den - num;
  }
  bool
  flip()
  {
    return this->draw(1) == 1;
  }
  /// Loop control, about @a avg iterations on average, and never more than @a max.
  bool
  more(unsigned avg, unsigned count, unsigned max)
  {
    return count < max * _scale && this->draw(avg * _scale) != 0;
  }
  /// Make @a percent of the cases several times larger, by the limits of @c more, @c str and @c bytes.
  void
  scaled(unsigned percent = 3, unsigned limit = 16)
  {
    _scale = 1;
    if (this->chance(percent))
      _scale = 2 + unsigned(this->draw(limit - 2));
  }
  /// Make @a permille of the cases have some very long strings, past the limits of 8 and 16 bit sizes.
  void
  huge(unsigned permille = 4)
  {
    _huge = this->draw(999) >= 1000 - permille;
  }
  bool
  is_huge() const
  {
    return _huge;
  }
  /// In @a permille of the cases, a large number, around the limits of 8 and 16 bit sizes, but at most @a max.
  /// Otherwise 0.
  word bulk(unsigned permille = 3, word max = 70000);
  /// Any 64 bit value, biased toward the values that tend to matter (powers of 2, limits, small).
  word edgy();
  int64_t
  edgy_int()
  {
    return int64_t(this->edgy());
  }

  template <typename T>
  T const &
  pick(std::vector<T> const &v)
  {
    return v[this->draw(v.size() - 1)];
  }
  template <typename T>
  T
  pick(std::initializer_list<T> v)
  {
    return v.begin()[this->draw(v.size() - 1)];
  }
  /// Index with the given weights.
  unsigned weighted(std::initializer_list<unsigned> w);

  /// String drawn from an alphabet.
  std::string str(std::string_view alphabet, unsigned max_len, unsigned avg = 6);
  /// arbitrary bytes, biased to alphabet
  std::string bytes(unsigned max_len, unsigned avg = 8);

  // --- observation
  /// Count this case under @a name.
  void label(char const *name);
  void
  label(char const *name, bool p)
  {
    if (p)
      this->label(name);
  }
  /// The case exercised what the property is about.
  void
  nontrivial(bool p = true)
  {
    _nontrivial |= p;
  }
  bool
  verbose() const
  {
    return _verbose;
  }
  template <typename... A>
  void
  note(A &&...a)
  {
    if (_verbose) {
      std::ostringstream os;
      (os << ... << a);
      this->do_note(os.str());
    }
  }
  /// Report an exempted known finding.
  void known(char const *id);

  /// Abandon the case - it is not in the domain.
  [[noreturn]] void
  discard()
  {
    throw Discard{};
  }

  // --- engine interface.
  enum Mode { RANDOM, REPLAY };
  Mode _mode = RANDOM;
  bool _extend = false; ///< In replay mode, draw random values past the end.
  Rng _rng{1};
  word const *_in = nullptr;
  size_t _in_n = 0;
  word *_rec = nullptr; ///< Recorded choices.
  uint64_t *_rec_n = nullptr;
  size_t _rec_max = 0;
  unsigned _scale = 1;
  bool _huge      = false;
  word _huge_left = 0; ///< Limit on what is added to a case.
  std::string &lengthen(std::string &s, char c);
  bool _nontrivial = false;
  bool _verbose = false;
  std::string _notes;
  void do_note(std::string const &);
};

using prop_fn = void (*)(Src &);
struct Prop {
  char const *name;
  prop_fn fn;
  unsigned weight;
  char const *rule; ///< What makes a case non-trivial.
};
std::vector<Prop> &props();
struct Registrar {
  Registrar(char const *name, prop_fn fn, unsigned weight, char const *rule) { props().push_back({name, fn, weight, rule}); }
};

/// Printable form of arbitrary bytes.
std::string esc(std::string_view s);

struct FailStream {
  std::ostringstream os;
  [[noreturn]] void raise();
};
struct Thrower {
  [[noreturn]] void operator&(std::ostream &os);
};

/// Objects that count the live instances, to detect leaks, double destruction, and use of dead
/// objects.
struct Tracked {
  static long live;
  static constexpr uint32_t ALIVE = 0xA11CE5ED;
  int v;
  uint32_t magic = ALIVE;
  Tracked *self  = this;
  explicit Tracked(int n = 0) : v(n) { ++live; }
  Tracked(Tracked const &t) : v(t.get()) { ++live; }
  Tracked(Tracked &&t) : v(t.get())
  {
    t.v = -1;
    ++live;
  }
  Tracked &
  operator=(Tracked const &t)
  {
    this->get();
    v = t.get();
    return *this;
  }
  Tracked &
  operator=(Tracked &&t)
  {
    this->get();
    int n = t.get();
    if (&t != this)
      t.v = -1;
    v = n;
    return *this;
  }
  ~Tracked();
  int get() const; ///< value, after checking this is a live object.
  bool
  operator==(Tracked const &t) const
  {
    return this->get() == t.get();
  }
  bool
  operator!=(Tracked const &t) const
  {
    return this->get() != t.get();
  }
};

} // namespace pbt

/// Define a property. @a WEIGHT is the relative share of the cases, @a RULE the non-trivial rule.
#define PROPERTY(NAME, WEIGHT, RULE)                                        \
  static void prop_##NAME(pbt::Src &g);                                     \
  static pbt::Registrar reg_##NAME(#NAME, &prop_##NAME, WEIGHT, RULE);      \
  static void prop_##NAME([[maybe_unused]] pbt::Src &g)

/// Requirement. Streams a message.
#define REQ(COND, ...)                                                                                  \
  do {                                                                                                  \
    if (!(COND)) {                                                                                      \
      std::ostringstream os_;                                                                           \
      os_ << "line " << __LINE__ << ": " << #COND << " : ";                                             \
      pbt_stream(os_, ##__VA_ARGS__);                                                                   \
      throw pbt::Failure{os_.str()};                                                                    \
    }                                                                                                   \
  } while (0)

#define REQ_EQ(A, B, ...)                                                                               \
  do {                                                                                                  \
    auto const a_ = (A);                                                                                \
    auto const b_ = (B);                                                                                \
    if (!(a_ == b_)) {                                                                                  \
      std::ostringstream os_;                                                                           \
      os_ << "line " << __LINE__ << ": " << #A << " == " << #B << " : got ";                            \
      pbt_stream(os_, pbt_show(a_), " expected ", pbt_show(b_), "  ", ##__VA_ARGS__);                   \
      throw pbt::Failure{os_.str()};                                                                    \
    }                                                                                                   \
  } while (0)

template <typename... A>
void
pbt_stream(std::ostream &os, A const &...a)
{
  if constexpr (sizeof...(a) > 0)
    (os << ... << a);
}

template <typename T>
auto
pbt_show(T const &t) -> std::string
{
  if constexpr (std::is_same_v<T, bool>) {
    return t ? "true" : "false";
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(long(t));
  } else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, unsigned char> || std::is_same_v<T, signed char>) {
    return std::to_string(int(t));
  } else if constexpr (std::is_arithmetic_v<T>) {
    std::ostringstream os;
    os.precision(20);
    os << t;
    return os.str();
  } else if constexpr (std::is_convertible_v<T const &, std::string_view>) {
    return "\"" + pbt::esc(std::string_view(t)) + "\"";
  } else if constexpr (std::is_pointer_v<T>) {
    std::ostringstream os;
    os << static_cast<void const *>(t);
    return os.str();
  } else {
    return "<?>";
  }
}
