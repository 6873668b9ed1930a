// The engine: forked workers, coverage guided mutation of choice sequences, shrinking, replay.
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <set>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

// ---------------------------------------------------------------------------------------------
// sanitizer configuration and coverage feedback.

extern "C" const char *
__asan_default_options()
{
  return "detect_leaks=0:exitcode=86:symbolize=0:handle_abort=0:hard_rss_limit_mb=3000:max_allocation_size_mb=2000:"
         "detect_stack_use_after_return=0:detect_container_overflow=1:allocator_may_return_null=0:"
         "malloc_context_size=8:quarantine_size_mb=64:alloc_dealloc_mismatch=1:new_delete_type_mismatch=0";
}
extern "C" const char *
__ubsan_default_options()
{
  return "print_stacktrace=1:symbolize=0:halt_on_error=1:exitcode=86";
}

namespace
{
struct CovRegion {
  uint8_t *b, *e;
};
std::vector<CovRegion> &
cov_regions()
{
  static std::vector<CovRegion> v;
  return v;
}
} // namespace
extern "C" void
__sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e)
{
  for (auto &r : cov_regions())
    if (r.b == b)
      return;
  if (b != e)
    cov_regions().push_back({b, e});
}
extern "C" void
__sanitizer_cov_pcs_init(uintptr_t const *, uintptr_t const *)
{
}

namespace pbt
{
using word = Src::word;

// ---------------------------------------------------------------------------------------------
static uint64_t
splitmix(uint64_t &x)
{
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed)
{
  for (auto &w : s)
    w = splitmix(seed);
}
uint64_t
Rng::next()
{
  auto rotl       = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rotl(s[3], 45);
  return result;
}

std::vector<Prop> &
props()
{
  static std::vector<Prop> v;
  return v;
}

long Tracked::live = 0;
int
Tracked::get() const
{
  if (magic != ALIVE || self != this)
    throw Failure{"use of an object that is not alive (or was moved bitwise)"};
  return v;
}
static thread_local bool tracked_error = false;
Tracked::~Tracked()
{
  if (magic != ALIVE || self != this) {
    tracked_error = true;
    std::fprintf(stderr, "pbt: destroyed an object that is not alive\n");
    _exit(87);
  }
  magic = 0xDEADDEAD;
  self  = nullptr;
  --live;
}

std::string
esc(std::string_view s)
{
  std::string r;
  if (s.size() > 4000)
    return esc(s.substr(0, 1000)) + "...(" + std::to_string(s.size()) + " bytes)..." + esc(s.substr(s.size() - 1000));
  for (unsigned char c : s) {
    if (c == '\\' || c == '"') {
      r += '\\';
      r += char(c);
    } else if (c >= 0x20 && c < 0x7f) {
      r += char(c);
    } else {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  }
  return r;
}

// ---------------------------------------------------------------------------------------------
word
Src::draw(word max)
{
  word v;
  size_t idx = *_rec_n;
  if (idx >= _rec_max)
    throw Discard{};
  if (_mode == REPLAY && idx < _in_n) {
    v = _in[idx];
    if (v > max)
      v = max == ~word(0) ? v : v % (max + 1);
  } else if (_mode == REPLAY && !_extend) {
    v = 0;
  } else {
    v = _rng.next();
    if (max != ~word(0)) {
      v = word((static_cast<unsigned __int128>(v) * (static_cast<unsigned __int128>(max) + 1)) >> 64);
    }
  }
  _rec[idx] = v;
  *_rec_n   = idx + 1;
  return v;
}

word
Src::small(word max)
{
  if (max == 0)
    return 0;
  // pick the magnitude first.
  unsigned bits = 64 - __builtin_clzll(max);
  unsigned b    = this->draw(bits);
  if (b == 0)
    return 0;
  word m = b >= 64 ? ~word(0) : ((word(1) << b) - 1);
  return this->draw(std::min(m, max));
}

word
Src::edgy()
{
  switch (this->draw(7)) {
  case 0:
    return this->draw(16);
  case 1: {
    unsigned b = this->draw(63);
    word v     = word(1) << b;
    return v + this->draw(4) - 2;
  }
  case 2:
    return word(0) - this->draw(16);
  case 3: {
    static constexpr word T[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000ull, 0xffffffffffffffffull, 9, 10, 99, 100, 999999999, 1000000000};
    return T[this->draw(std::size(T) - 1)];
  }
  case 4: {
    unsigned b = 1 + this->draw(62);
    return this->draw((word(1) << b) - 1);
  }
  case 5:
    return this->draw(1000);
  case 6: // negative of the above sort
    return word(0) - (word(1) << this->draw(63)) + this->draw(4) - 2;
  default:
    return this->draw(~word(0));
  }
}

unsigned
Src::weighted(std::initializer_list<unsigned> w)
{
  unsigned sum = 0;
  for (auto x : w)
    sum += x;
  unsigned v = unsigned(this->draw(sum - 1)), i = 0;
  for (auto x : w) {
    if (v < x)
      return i;
    v -= x;
    ++i;
  }
  return 0;
}

word
Src::bulk(unsigned permille, word max)
{
  if (this->draw(999) < 1000 - permille)
    return 0;
  word n;
  switch (this->weighted({10, 6, 4})) {
  case 0:
    n = 250 + this->draw(10);
    break;
  case 1:
    n = 500 + this->draw(2000);
    break;
  default:
    n = 65530 + this->draw(10);
    break;
  }
  return std::min(n, max);
}

std::string &
Src::lengthen(std::string &s, char c)
{
  if (_huge && this->chance(60)) {
    word n   = this->pick({word(254), word(510), word(1020), word(4094), word(65532), word(65790)}) + this->draw(4);
    if (n > _huge_left)
      return s;
    _huge_left -= n;
    word pos = this->weighted({3, 3, 4});
    pos      = pos == 0 ? s.size() : pos == 1 ? 0 : this->draw(s.size());
    s.insert(pos, n, c);
  }
  return s;
}

std::string
Src::str(std::string_view alphabet, unsigned max_len, unsigned avg)
{
  std::string s;
  while (this->more(avg, unsigned(s.size()), max_len))
    s += alphabet[this->draw(alphabet.size() - 1)];
  return _huge ? this->lengthen(s, alphabet[this->draw(alphabet.size() - 1)]) : s;
}
std::string
Src::bytes(unsigned max_len, unsigned avg)
{
  std::string s;
  while (this->more(avg, unsigned(s.size()), max_len)) {
    if (this->chance(70))
      s += "ab01 ,:.-AZ/\t\n"[this->draw(13)];
    else
      s += char(this->draw(255));
  }
  return _huge ? this->lengthen(s, "ab01 ,:.-AZ/\t\n"[this->draw(13)]) : s;
}

// ---------------------------------------------------------------------------------------------
// shared state.
constexpr size_t REC_MAX   = 1 << 16;
constexpr size_t N_LABELS  = 400;
constexpr size_t MSG_MAX   = 16384;
constexpr size_t N_PROPS   = 96;
constexpr size_t N_KNOWN   = 64;
constexpr size_t BM_BITS   = size_t(1) << 27;
constexpr int ST_OK = 0, ST_FAIL = 77, ST_HANG = 78, ST_DISCARD = 79;

struct LabelCount {
  char const *name;
  unsigned prop;
  uint64_t n;
};
struct Slot {
  unsigned prop;
  uint64_t index; ///< case number in this worker.
  uint64_t rec_n;
  uint64_t cases[N_PROPS], nontrivial[N_PROPS], discard[N_PROPS];
  uint64_t n_labels;
  LabelCount labels[N_LABELS];
  uint64_t edges, corpus;
  double slowest; ///< Longest time for a case.
  unsigned slowest_prop;
  char msg[MSG_MAX];
  char notes[MSG_MAX];
  bool was_nontrivial;
  word rec[REC_MAX];
};
struct Shared {
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> known[N_KNOWN];
  std::atomic<int> stop;
  Slot slot[0];
};
static Shared *SH;
static std::atomic<uint64_t> *BM;
static Slot *CUR; ///< slot in use by this process.

struct Finding {
  std::string property, id, text;
};
static std::vector<Finding> KNOWN;
static std::string PROPERTY_ID = "?";

void
Src::label(char const *name)
{
  if (!CUR)
    return;
  for (size_t i = 0; i < CUR->n_labels; ++i) {
    auto &l = CUR->labels[i];
    if (l.prop == CUR->prop && (l.name == name || !strcmp(l.name, name))) {
      ++l.n;
      return;
    }
  }
  if (CUR->n_labels < N_LABELS)
    CUR->labels[CUR->n_labels++] = {name, CUR->prop, 1};
}
void
Src::do_note(std::string const &s)
{
  if (_notes.size() < MSG_MAX - 200) {
    _notes += s;
    _notes += '\n';
  }
}
void
Src::known(char const *id)
{
  for (size_t i = 0; i < KNOWN.size() && i < N_KNOWN; ++i)
    if (KNOWN[i].id == id && KNOWN[i].property == PROPERTY_ID) {
      ++SH->known[i];
      return;
    }
  throw Failure{std::string("finding not listed: ") + id};
}

static double
now()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------------------------------------
static constexpr int HANG_SECONDS_SEARCH  = 6;  ///< CPU time.
static constexpr int HANG_CONFIRM_SECONDS = 40; ///< To be sure the case isn't merely slow.
static int HANG_SECONDS                   = HANG_SECONDS_SEARCH;
static void
on_prof(int)
{
  static char const m[] = "pbt: case exceeded its CPU time limit - does not terminate\n";
  if (write(2, m, sizeof m - 1)) {
  }
  _exit(ST_HANG);
}
static void
arm(int sec)
{
  itimerval it{};
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

/// Run one case. Result is ST_OK, ST_FAIL, ST_DISCARD.
static int
run_case(Src &g, Prop const &p, Slot &slot)
{
  slot.rec_n      = 0;
  slot.msg[0]     = 0;
  g._rec          = slot.rec;
  g._rec_n        = &slot.rec_n;
  g._rec_max      = REC_MAX;
  g._nontrivial   = false;
  g._scale        = 1;
  g._huge         = false;
  g._huge_left    = 140000;
  g._notes.clear();
  Tracked::live = 0;
  int zret;
  auto set = [&](std::string const &s) { snprintf(slot.msg, MSG_MAX, "%s", s.c_str()); };
  try {
    p.fn(g);
    zret = ST_OK;
  } catch (Failure const &f) {
    set(f.msg);
    zret = ST_FAIL;
  } catch (Discard const &) {
    zret = ST_DISCARD;
  } catch (std::exception const &x) {
    set(std::string("unexpected exception: ") + x.what());
    zret = ST_FAIL;
  }
  slot.was_nontrivial = g._nontrivial;
  if (g._verbose)
    snprintf(slot.notes, MSG_MAX, "%s", g._notes.c_str());
  return zret;
}

/// Run a choice sequence in a child process.
struct Result {
  int status = ST_OK; ///< ST_ codes or others
  std::vector<word> rec;
  std::string msg, notes;
  bool nontrivial = false;
  bool
  failed() const
  {
    return status != ST_OK && status != ST_DISCARD;
  }
};
static std::string
describe(int st)
{
  if (WIFSIGNALED(st))
    return std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  switch (WEXITSTATUS(st)) {
  case 86:
    return "sanitizer report (memory error or undefined behaviour)";
  case 87:
    return "destroyed an object that is not alive";
  case ST_HANG:
    return "does not terminate (CPU time limit)";
  }
  return "process exited with " + std::to_string(WEXITSTATUS(st));
}
static Result
run_child(unsigned prop, std::vector<word> const &c, Slot &slot, bool verbose, char const *errfile)
{
  Result r;
  slot.prop     = prop;
  slot.rec_n    = 0;
  slot.msg[0]   = 0;
  slot.notes[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    CUR    = nullptr;
    int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    Src g;
    g._mode    = Src::REPLAY;
    g._in      = c.data();
    g._in_n    = c.size();
    g._verbose = verbose;
    arm(HANG_SECONDS);
    int z = run_case(g, props()[prop], slot);
    _exit(z);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  r.nontrivial = slot.was_nontrivial;
  r.rec.assign(slot.rec, slot.rec + std::min<size_t>(slot.rec_n, REC_MAX));
  r.notes = slot.notes;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == ST_OK || WEXITSTATUS(st) == ST_FAIL || WEXITSTATUS(st) == ST_DISCARD)) {
    r.status = WEXITSTATUS(st);
    r.msg    = slot.msg;
  } else {
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    r.msg    = describe(st);
  }
  return r;
}

// ---------------------------------------------------------------------------------------------
// worker.
struct Entry {
  unsigned prop;
  std::vector<word> c;
};

static uint64_t
hash_case(unsigned prop, word const *w, size_t n)
{
  uint64_t h = 0xcbf29ce484222325ull ^ prop;
  for (size_t i = 0; i < n; ++i) {
    h ^= w[i];
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  return h;
}

static void
mutate(Rng &rng, std::vector<word> &c, std::vector<Entry> const &corpus, unsigned prop, bool &extend)
{
  auto rnd   = [&](size_t n) -> size_t { return n ? rng.next() % n : 0; };
  int rounds = 1 + rnd(4);
  extend     = rnd(2);
  for (int i = 0; i < rounds; ++i) {
    switch (rnd(8)) {
    case 0: // random value
    case 1:
      if (c.size())
        c[rnd(c.size())] = rng.next() >> rnd(64);
      break;
    case 2: // nudge
      if (c.size()) {
        auto &w = c[rnd(c.size())];
        w       = rnd(2) ? w + 1 : (w ? w - 1 : 0);
      }
      break;
    case 3: // delete block
      if (c.size() > 1) {
        size_t s = rnd(c.size()), n = std::min(c.size() - s, 1 + rnd(8));
        c.erase(c.begin() + s, c.begin() + s + n);
      }
      break;
    case 4: // duplicate / move block.
      if (c.size() > 1 && c.size() < 4000) {
        size_t s = rnd(c.size()), n = std::min(c.size() - s, 1 + rnd(16));
        std::vector<word> b(c.begin() + s, c.begin() + s + n);
        size_t d = rnd(c.size() + 1);
        c.insert(c.begin() + d, b.begin(), b.end());
      }
      break;
    case 5: // truncate
      if (c.size() > 1)
        c.resize(1 + rnd(c.size()));
      extend = true;
      break;
    case 6: { // splice
      auto const &o = corpus[rnd(corpus.size())];
      if (o.prop == prop && o.c.size() && c.size()) {
        size_t a = rnd(c.size()), b = rnd(o.c.size());
        c.resize(a);
        c.insert(c.end(), o.c.begin() + b, o.c.end());
      }
      break;
    }
    case 7: // zero a value or copy one from elsewhere.
      if (c.size())
        c[rnd(c.size())] = rnd(2) ? 0 : c[rnd(c.size())];
      break;
    }
  }
}

struct Config {
  uint64_t seed    = 1;
  double seconds   = 20;
  unsigned workers = 8;
  std::string tier = "quick", evidence, replays = ".", known_file, only;
  uint64_t max_cases = ~0ull;
};

/// Body of a worker process. Runs until time is up or, if @a stop_at is given, through that case.
/// In the latter case exits with the status of that case.
static int
worker(Config const &cfg, unsigned w, std::vector<unsigned> const &schedule, uint64_t start, uint64_t stop_at)
{
  Slot &slot = SH->slot[w];
  CUR        = &slot;
  signal(SIGPROF, on_prof);
  size_t n_cov = 0;
  for (auto &r : cov_regions())
    n_cov += r.e - r.b;
  std::vector<uint8_t> virgin(n_cov, 0);
  std::vector<Entry> corpus;
  bool replaying = stop_at != ~0ull;
  double t_end   = now() + cfg.seconds;

  for (uint64_t i = start; i < cfg.max_cases; ++i) {
    if (replaying ? i > stop_at : ((i % 16 == 0 && now() > t_end) || SH->stop.load(std::memory_order_relaxed)))
      break;
    uint64_t cs = cfg.seed * 0x9E3779B97F4A7C15ull ^ (uint64_t(w) << 48) ^ (i * 0xD1B54A32D192ED03ull);
    cs          = splitmix(cs);
    Src g;
    g._rng        = Rng(cs);
    unsigned prop = schedule[g._rng.next() % schedule.size()];
    bool mut      = !corpus.empty() && g._rng.next() % 100 < 35;
    std::vector<word> in;
    if (mut) {
      auto const &e = corpus[g._rng.next() % corpus.size()];
      in            = e.c;
      prop          = e.prop;
      mutate(g._rng, in, corpus, prop, g._extend);
      g._mode = Src::REPLAY;
      g._in   = in.data();
      g._in_n = in.size();
    }
    slot.prop  = prop;
    slot.index = i;
    for (auto &r : cov_regions())
      memset(r.b, 0, r.e - r.b);
    arm(HANG_SECONDS);
    double t0    = now();
    int z        = run_case(g, props()[prop], slot);
    if (auto dt = now() - t0; dt > slot.slowest) {
      slot.slowest      = dt;
      slot.slowest_prop = prop;
    }
    ++slot.cases[prop];
    if (z == ST_FAIL)
      return ST_FAIL;
    if (z == ST_DISCARD) {
      ++slot.discard[prop];
      continue;
    }
    if (g._nontrivial) {
      ++slot.nontrivial[prop];
      uint64_t h   = hash_case(prop, slot.rec, slot.rec_n);
      uint64_t bit = h % BM_BITS, m = uint64_t(1) << (bit & 63);
      if (!(BM[bit >> 6].fetch_or(m, std::memory_order_relaxed) & m))
        SH->distinct.fetch_add(1, std::memory_order_relaxed);
    }
    // coverage.
    bool fresh = false;
    size_t off = 0;
    for (auto &r : cov_regions()) {
      size_t n = r.e - r.b;
      for (size_t k = 0; k < n; k += 8) {
        uint64_t x = 0;
        memcpy(&x, r.b + k, std::min<size_t>(8, n - k));
        if (!x)
          continue;
        for (size_t j = k; j < std::min(k + 8, n); ++j) {
          if (uint8_t c = r.b[j]; c) {
            uint8_t b = c < 2 ? 1 : c < 4 ? 2 : c < 8 ? 4 : c < 32 ? 8 : c < 128 ? 16 : 32;
            if (!(virgin[off + j] & b)) {
              if (!virgin[off + j])
                ++slot.edges;
              virgin[off + j] |= b;
              fresh = true;
            }
          }
        }
      }
      off += n;
    }
    if (fresh && slot.rec_n < 6000) {
      if (corpus.size() >= 2000) {
        corpus[g._rng.next() % corpus.size()] = {prop, {slot.rec, slot.rec + slot.rec_n}};
      } else {
        corpus.push_back({prop, {slot.rec, slot.rec + slot.rec_n}});
      }
      slot.corpus = corpus.size();
    }
  }
  return ST_OK;
}

// ---------------------------------------------------------------------------------------------
static Result
shrink(unsigned prop, Result best, Slot &slot, double budget)
{
  double t_end  = now() + budget;
  long attempts = 0;
  std::set<uint64_t> seen;
  auto attempt = [&](std::vector<word> const &c) {
    if (now() > t_end)
      return false;
    if (!seen.insert(hash_case(prop, c.data(), c.size())).second)
      return false;
    ++attempts;
    Result r = run_child(prop, c, slot, false, nullptr);
    if (!r.failed())
      return false;
    // must be simpler: shorter or lexicographically less.
    if (r.rec.size() > best.rec.size() || (r.rec.size() == best.rec.size() && !(r.rec < best.rec)))
      return false;
    best = std::move(r);
    return true;
  };
  bool changed = true;
  while (changed && now() < t_end) {
    changed = false;
    for (size_t k : {256, 64, 32, 16, 12, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1}) {
      for (size_t i = best.rec.size(); i-- > 0 && now() < t_end;) {
        if (i + k > best.rec.size())
          continue;
        auto c = best.rec;
        c.erase(c.begin() + i, c.begin() + i + k);
        if (attempt(c)) {
          changed = true;
        }
      }
    }
    for (size_t k : {16, 4, 1}) {
      for (size_t i = 0; i + k <= best.rec.size() && now() < t_end; i += k) {
        auto c = best.rec;
        if (std::all_of(c.begin() + i, c.begin() + i + k, [](word v) { return v == 0; }))
          continue;
        std::fill(c.begin() + i, c.begin() + i + k, 0);
        if (attempt(c))
          changed = true;
      }
    }
    for (size_t i = 0; i < best.rec.size() && now() < t_end; ++i) {
      word lo = 0;
      while (i < best.rec.size() && best.rec[i] > lo && now() < t_end) {
        auto c   = best.rec;
        word mid = lo + (c[i] - lo) / 2;
        c[i]     = mid;
        if (attempt(c)) {
          changed = true;
        } else {
          lo = mid + 1;
        }
      }
    }
    // decrement one and delete a following one ("length" fields).
    for (size_t i = 0; i < best.rec.size() && now() < t_end; ++i) {
      if (best.rec[i] == 0)
        continue;
      for (size_t k = 1; k <= 4 && i + k < best.rec.size(); ++k) {
        auto c = best.rec;
        --c[i];
        c.erase(c.begin() + i + 1, c.begin() + i + 1 + k);
        if (attempt(c)) {
          changed = true;
          break;
        }
      }
    }
  }
  return best;
}

static std::string
json(std::string_view s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += char(c);
  }
  return r + "\"";
}

static void
load_known(std::string const &path)
{
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    if (line.rfind("finding:", 0) != 0)
      continue;
    Finding f;
    std::istringstream is(line.substr(8));
    std::string tok;
    is >> tok;
    if (tok.rfind("property=", 0) == 0)
      f.property = tok.substr(9);
    is >> tok;
    if (tok.rfind("id=", 0) == 0)
      f.id = tok.substr(3);
    std::getline(is, f.text);
    KNOWN.push_back(f);
  }
}

static std::string
slurp(std::string const &path, size_t max = 6000)
{
  std::ifstream in(path);
  std::ostringstream os;
  os << in.rdbuf();
  auto s = os.str();
  if (s.size() > max)
    s.resize(max);
  return s;
}

static int
do_replay(std::string const &path, Config const &cfg0)
{
  std::ifstream in(path);
  std::string line, name;
  std::vector<word> c;
  uint64_t hist_seed = 0, hist_idx = ~0ull, hist_start = 0;
  unsigned hist_w = 0;
  std::string sched_only;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string key;
    is >> key;
    if (key == "test")
      is >> name;
    else if (key == "choices") {
      word v;
      while (is >> v)
        c.push_back(v);
    } else if (key == "history") {
      is >> hist_seed >> hist_w >> hist_start >> hist_idx;
    }
  }
  unsigned prop = 0;
  for (; prop < props().size() && name != props()[prop].name; ++prop)
    ;
  if (prop == props().size()) {
    std::cerr << "no such test " << name << std::endl;
    return 2;
  }
  if (hist_idx != ~0ull) {
    Config cfg  = cfg0;
    cfg.seed    = hist_seed;
    std::vector<unsigned> schedule;
    for (unsigned i = 0; i < props().size(); ++i)
      schedule.insert(schedule.end(), props()[i].weight, i);
    int z = worker(cfg, hist_w, schedule, hist_start, hist_idx);
    std::cout << "history replay: " << SH->slot[hist_w].msg << std::endl;
    return z == ST_FAIL ? 1 : 0;
  }
  signal(SIGPROF, on_prof);
  Slot &slot = SH->slot[0];
  Src g;
  g._mode    = Src::REPLAY;
  g._in      = c.data();
  g._in_n    = c.size();
  g._verbose = true;
  arm(HANG_SECONDS);
  int z = run_case(g, props()[prop], slot);
  std::cout << "test " << name << "\n" << g._notes;
  std::cout << (z == ST_FAIL ? "FAILED: " : z == ST_DISCARD ? "discarded " : "passed ") << slot.msg << std::endl;
  return z == ST_FAIL ? 1 : 0;
}

static int
run_main(int argc, char **argv)
{
  Config cfg;
  std::string replay, level = "exploration";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val      = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop")
      PROPERTY_ID = val();
    else if (a == "--tier")
      cfg.tier = val();
    else if (a == "--seed")
      cfg.seed = std::stoull(val());
    else if (a == "--seconds")
      cfg.seconds = std::stod(val());
    else if (a == "--workers")
      cfg.workers = std::stoul(val());
    else if (a == "--evidence")
      cfg.evidence = val();
    else if (a == "--replays")
      cfg.replays = val();
    else if (a == "--known")
      cfg.known_file = val();
    else if (a == "--only")
      cfg.only = val();
    else if (a == "--max-cases")
      cfg.max_cases = std::stoull(val());
    else if (a == "--replay")
      replay = val();
    else {
      std::cerr << "bad argument " << a << std::endl;
      return 2;
    }
  }
  load_known(cfg.known_file);
  size_t sz = sizeof(Shared) + sizeof(Slot) * (cfg.workers + 2);
  SH        = static_cast<Shared *>(mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  BM        = static_cast<std::atomic<uint64_t> *>(mmap(nullptr, BM_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (SH == MAP_FAILED || BM == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  if (!replay.empty())
    return do_replay(replay, cfg);

  signal(SIGPROF, on_prof);
  std::vector<unsigned> schedule;
  for (unsigned i = 0; i < props().size(); ++i)
    if (cfg.only.empty() || cfg.only == props()[i].name)
      schedule.insert(schedule.end(), props()[i].weight, i);
  if (schedule.empty() || props().size() > N_PROPS) {
    std::cerr << "no tests" << std::endl;
    return 2;
  }

  double t0      = now();
  Slot &scratch  = SH->slot[cfg.workers];
  int violations = 0, unreproduced = 0;
  std::map<pid_t, unsigned> kids;
  std::vector<uint64_t> starts(cfg.workers, 0);
  auto spawn = [&](unsigned w, uint64_t start) {
    starts[w] = start;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      Config c  = cfg;
      c.seconds = std::max(0.0, cfg.seconds - (now() - t0));
      _exit(worker(c, w, schedule, start, ~0ull));
    }
    if (pid > 0)
      kids[pid] = w;
  };
  for (unsigned w = 0; w < cfg.workers; ++w)
    spawn(w, 0);

  int zret = 0;
  std::string viol_line;
  while (!kids.empty()) {
    int st;
    pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) {
      if (errno == EINTR)
        continue;
      break;
    }
    auto it = kids.find(pid);
    if (it == kids.end())
      continue;
    unsigned w = it->second;
    kids.erase(it);
    if ((WIFEXITED(st) && WEXITSTATUS(st) == ST_OK) || zret)
      continue;
    // A failure.
    Slot &slot    = SH->slot[w];
    unsigned prop = slot.prop;
    std::vector<word> c(slot.rec, slot.rec + std::min<size_t>(slot.rec_n, REC_MAX));
    uint64_t idx    = slot.index;
    std::string msg = WIFEXITED(st) && WEXITSTATUS(st) == ST_FAIL ? slot.msg : describe(st);
    std::cout << "failure in " << props()[prop].name << " (worker " << w << " case " << idx << "): " << msg << std::endl;
    auto confirmed = [&](std::vector<word> const &c) {
      for (int i = 0; i < 3; ++i)
        if (!run_child(prop, c, scratch, false, nullptr).failed())
          return false;
      return true;
    };
    bool const hang = WIFEXITED(st) && WEXITSTATUS(st) == ST_HANG;
    bool slow       = false;
    if (hang) { // Not merely slow?
      HANG_SECONDS = HANG_CONFIRM_SECONDS;
      slow         = !run_child(prop, c, scratch, false, nullptr).failed();
      if (!slow)
        HANG_SECONDS = HANG_SECONDS_SEARCH;
    }
    mkdir(cfg.replays.c_str(), 0755);
    std::string path = cfg.replays + "/" + PROPERTY_ID + "-" + props()[prop].name + ".replay";
    if (!slow && confirmed(c)) {
      SH->stop = 1;
      for (auto &[p, _] : kids)
        kill(p, SIGKILL);
      Result r = run_child(prop, c, scratch, false, nullptr);
      if (hang)
        HANG_SECONDS = 1; // Enough to look for a smaller case, that's confirmed with the full limit.
      r            = shrink(prop, r, scratch, cfg.tier == "quick" ? (hang ? 60 : 20) : 120);
      HANG_SECONDS = HANG_SECONDS_SEARCH;
      if (!confirmed(r.rec))
        r.rec = c;
      std::string err = path + ".stderr";
      auto last       = run_child(prop, r.rec, scratch, true, err.c_str());
      std::ofstream out(path);
      out << "property " << PROPERTY_ID << "\ntest " << props()[prop].name << "\nseed " << cfg.seed << "\nchoices";
      for (auto v : r.rec)
        out << ' ' << v;
      out << "\n# " << last.msg << "\n";
      std::istringstream notes(last.notes);
      for (std::string l; std::getline(notes, l);)
        out << "# " << l << "\n";
      auto e = slurp(err);
      std::istringstream es(e);
      for (std::string l; std::getline(es, l);)
        out << "# stderr: " << l << "\n";
      unlink(err.c_str());
      out.close();
      std::cout << "shrunk to " << r.rec.size() << " choices: " << last.msg << "\n" << last.notes << e << std::endl;
      viol_line = "VIOLATION property=" + PROPERTY_ID + " replay=" + path;
      zret      = 1;
      ++violations;
    } else {
      // Is it a product of what came before in the same process?
      bool hist = !slow;
      for (int i = 0; i < 3 && hist; ++i) {
        pid_t p = fork();
        if (p == 0) {
          int fd = open("/dev/null", O_WRONLY);
          dup2(fd, 2);
          _exit(worker(cfg, w, schedule, starts[w], idx));
        }
        int s2;
        waitpid(p, &s2, 0);
        hist = !(WIFEXITED(s2) && WEXITSTATUS(s2) == ST_OK);
      }
      if (hist) {
        SH->stop = 1;
        for (auto &[p, _] : kids)
          kill(p, SIGKILL);
        std::ofstream out(path);
        out << "property " << PROPERTY_ID << "\ntest " << props()[prop].name << "\nhistory " << cfg.seed << ' ' << w << ' ' << starts[w] << ' '
            << idx << "\n# " << msg << "\n# fails only after the cases that precede it in the same process\n";
        viol_line = "VIOLATION property=" + PROPERTY_ID + " replay=" + path;
        zret      = 1;
        ++violations;
      } else {
        std::cout << (slow ? "slow but terminates" : "not reproducible") << " - ignored" << std::endl;
        ++unreproduced;
        HANG_SECONDS = HANG_SECONDS_SEARCH;
        if (unreproduced < 50)
          spawn(w, idx + 1);
      }
      HANG_SECONDS = HANG_SECONDS_SEARCH;
    }
  }
  double wall = now() - t0;

  // Gather.
  uint64_t evals = 0, nontriv = 0, disc = 0, edges = 0, corpus = 0;
  double slowest = 0;
  char const *slowest_name = "";
  std::map<std::string, std::array<uint64_t, 3>> per;
  std::map<std::string, uint64_t> labels;
  for (unsigned w = 0; w < cfg.workers; ++w) {
    Slot &s = SH->slot[w];
    for (unsigned p = 0; p < props().size(); ++p) {
      evals += s.cases[p];
      nontriv += s.nontrivial[p];
      disc += s.discard[p];
      auto &a = per[props()[p].name];
      a[0] += s.cases[p];
      a[1] += s.nontrivial[p];
      a[2] += s.discard[p];
    }
    for (size_t i = 0; i < s.n_labels; ++i)
      labels[std::string(props()[s.labels[i].prop].name) + ": " + s.labels[i].name] += s.labels[i].n;
    edges  = std::max(edges, s.edges);
    if (s.slowest > slowest) {
      slowest      = s.slowest;
      slowest_name = props()[s.slowest_prop].name;
    }
    corpus += s.corpus;
  }
  // Samples - a few non-trivial cases of each test.
  std::vector<std::string> samples;
  if (!zret) {
    size_t per_prop = props().size() > 6 ? 1 : 2;
    for (unsigned p = 0; p < props().size(); ++p) {
      size_t n = 0;
      for (uint64_t k = 0; k < 40 && n < per_prop; ++k) {
        uint64_t sd = cfg.seed * 7919 + k * 104729 + p;
        Rng rng(splitmix(sd));
        std::vector<word> c;
        for (int i = 0; i < 400; ++i)
          c.push_back(rng.next());
        auto r = run_child(p, c, scratch, true, nullptr);
        if (r.status == ST_OK && r.nontrivial) {
          ++n;
          auto t = r.notes.substr(0, 700);
          samples.push_back(std::string(props()[p].name) + ": " + t);
        }
      }
    }
  }
  std::set<std::string> rules;
  std::string rule = "a case (a drawn choice sequence) is counted when it is the first with its hash and, per test - ";
  for (auto const &p : props())
    rule += std::string(p.name) + ": " + p.rule + "; ";

  if (!cfg.evidence.empty()) {
    std::ofstream out(cfg.evidence + ".tmp");
    out << "{\n \"property\": " << json(PROPERTY_ID) << ",\n \"tier\": " << json(cfg.tier) << ",\n \"seed\": " << cfg.seed
        << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals
        << ",\n  \"distinct_nontrivial\": " << SH->distinct.load() << ",\n  \"nontrivial\": " << nontriv << ",\n  \"discarded\": " << disc
        << ",\n  \"edges_covered\": " << edges << ",\n  \"corpus\": " << corpus << ",\n  \"slowest_case_s\": " << slowest << ",\n  \"rule\": " << json(rule) << ",\n  \"tests\": {";
    char const *sep = "";
    for (auto const &[k, v] : per) {
      out << sep << "\n   " << json(k) << ": {\"cases\": " << v[0] << ", \"nontrivial\": " << v[1] << ", \"discarded\": " << v[2] << "}";
      sep = ",";
    }
    out << "\n  },\n  \"classes\": {";
    sep = "";
    for (auto const &[k, v] : labels) {
      out << sep << "\n   " << json(k) << ": " << v;
      sep = ",";
    }
    out << "\n  },\n  \"samples\": [";
    sep = "";
    for (auto const &s : samples) {
      out << sep << "\n   " << json(s);
      sep = ",";
    }
    out << "\n  ]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << ",\n \"unreproduced\": " << unreproduced
        << ",\n \"assumptions\": [\"clang 18, x86-64 Linux, AddressSanitizer and part of UBSan enabled\", \"absence is not established: the "
           "property held on the generated cases\"]\n}\n";
    out.close();
    rename((cfg.evidence + ".tmp").c_str(), cfg.evidence.c_str());
  }
  std::cout << PROPERTY_ID << ": " << evals << " cases, " << nontriv << " non-trivial, " << SH->distinct.load() << " distinct, " << disc
            << " discarded, " << edges << " edges, corpus " << corpus << ", " << wall << " s, slowest case " << slowest << " s (" << slowest_name << ")"
            << std::endl;
  for (auto const &[k, v] : per)
    if (v[0])
      std::cout << "  " << k << ": " << v[0] << " cases, " << v[1] << " non-trivial" << std::endl;
  for (size_t i = 0; i < KNOWN.size() && i < N_KNOWN; ++i)
    if (KNOWN[i].property == PROPERTY_ID && SH->known[i].load())
      std::cout << "KNOWN-FINDING: property=" << PROPERTY_ID << " " << KNOWN[i].id << KNOWN[i].text << std::endl;
  if (zret)
    std::cout << viol_line << std::endl;
  else if (evals == 0 || SH->distinct.load() == 0) {
    std::cout << "nothing was tested" << std::endl;
    zret = 3;
  }
  return zret;
}

void
FailStream::raise()
{
  throw Failure{os.str()};
}

} // namespace pbt

int
main(int argc, char **argv)
{
  return pbt::run_main(argc, argv);
}
