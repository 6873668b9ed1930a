// F02 - file operations.
//
// Two identical trees in a scratch directory. The library operation is performed in one, the
// operation as documented, written here directly on system calls, in the other. The results and the
// trees are compared. System calls of the library can be made to fail. All of this is done without
// privileges so nothing else can be affected.
#include "pbt.h"
#include "util.h"
#include "swoc/swoc_file.h"
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <cstdarg>
#include <map>
#include <optional>
#include <set>
using pbt::Src;
namespace file = swoc::file;
using file::path;

// ---------------------------------------------------------------- faults
namespace
{
enum Call { OPEN, READ, WRITE, STAT, MKDIR, RMDIR, UNLINK, OPENDIR, READDIR, TRUNCATE, REALPATH, N_CALLS };
struct Fault {
  bool armed{false};
  Call call{OPEN};
  int skip{0};   ///< # of calls before the fault.
  int err{0};    ///< Error, 0 for a short transfer.
  size_t len{1}; ///< Size of short transfer.
  bool hit{false};
  std::vector<size_t> pieces; ///< Limits of transfers, used in turn.
  size_t turn{0};
  /// @return Size to transfer in place of @a n.
  size_t
  piece(size_t n)
  {
    return pieces.empty() ? n : std::min(n, pieces[turn++ % pieces.size()]);
  }
  /// @return If this call is to fail.
  bool
  fail(Call c)
  {
    if (!armed || c != call || hit)
      return false;
    if (skip-- > 0)
      return false;
    hit = true;
    if (err)
      errno = err;
    return true;
  }
} Inject;
} // namespace

#define FAULTY(rtype, name, call, bad, params, args) \
  extern "C" rtype __real_##name params;             \
  extern "C" rtype __wrap_##name params              \
  {                                                  \
    return Inject.fail(call) ? bad : __real_##name args; \
  }

extern "C" int __real_open(char const *, int, ...);
extern "C" int
__wrap_open(char const *p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t mode = flags & O_CREAT ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return Inject.fail(OPEN) ? -1 : __real_open(p, flags, mode);
}
extern "C" int __real_open64(char const *, int, ...);
extern "C" int
__wrap_open64(char const *p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t mode = flags & O_CREAT ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return Inject.fail(OPEN) ? -1 : __real_open64(p, flags, mode);
}
extern "C" int __real_openat(int, char const *, int, ...);
extern "C" int
__wrap_openat(int fd, char const *p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t mode = flags & O_CREAT ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return Inject.fail(OPEN) ? -1 : __real_openat(fd, p, flags, mode);
}
#define FAULTY_IO(name, call, params, args)          \
  extern "C" ssize_t __real_##name params;           \
  extern "C" ssize_t __wrap_##name params            \
  {                                                  \
    if (Inject.fail(call)) {                         \
      if (Inject.err)                                \
        return -1;                                   \
      n = std::min(n, Inject.len);                   \
    }                                                \
    n = Inject.piece(n);                             \
    return __real_##name args;                       \
  }
FAULTY_IO(read, READ, (int fd, void *p, size_t n), (fd, p, n))
FAULTY_IO(write, WRITE, (int fd, void const *p, size_t n), (fd, p, n))
FAULTY_IO(pread, READ, (int fd, void *p, size_t n, off_t o), (fd, p, n, o))
FAULTY_IO(pwrite, WRITE, (int fd, void const *p, size_t n, off_t o), (fd, p, n, o))
FAULTY(int, stat, STAT, -1, (char const *p, struct stat *s), (p, s))
FAULTY(int, lstat, STAT, -1, (char const *p, struct stat *s), (p, s))
FAULTY(int, fstat, STAT, -1, (int fd, struct stat *s), (fd, s))
FAULTY(int, mkdir, MKDIR, -1, (char const *p, mode_t m), (p, m))
FAULTY(int, rmdir, RMDIR, -1, (char const *p), (p))
FAULTY(int, unlink, UNLINK, -1, (char const *p), (p))
FAULTY(int, unlinkat, UNLINK, -1, (int fd, char const *p, int flags), (fd, p, flags))
FAULTY(DIR *, opendir, OPENDIR, nullptr, (char const *p), (p))
FAULTY(DIR *, fdopendir, OPENDIR, nullptr, (int fd), (fd))
FAULTY(dirent *, readdir, READDIR, nullptr, (DIR * d), (d))
FAULTY(int, ftruncate, TRUNCATE, -1, (int fd, off_t n), (fd, n))
FAULTY(char *, realpath, REALPATH, nullptr, (char const *p, char *b), (p, b))

// ---------------------------------------------------------------- trees
namespace
{
using Tree = std::map<std::string, std::string>; // path to description of item.

std::string Scratch; // Of this process.

void
setup()
{
  if (!Scratch.empty())
    return;
  char const *top = getenv("PBT_SCRATCH");
  char buff[300];
  snprintf(buff, sizeof buff, "%s/f02.XXXXXX", top ? top : "/tmp");
  if (!mkdtemp(buff))
    abort();
  char real[PATH_MAX];
  if (!__real_realpath(buff, real))
    abort();
  Scratch = real;
  if (geteuid() == 0) {
    gid_t gid = 65534;
    if (chown(buff, 65534, 65534) != 0 || setgroups(1, &gid) != 0 || setresgid(65534, 65534, 65534) != 0 ||
        setresuid(65534, 65534, 65534) != 0) {
      fprintf(stderr, "cannot drop privileges\n");
      if (chown(buff, 0, 0) != 0)
        abort();
    }
  }
}

std::string
slurp(std::string const &p)
{
  std::string z;
  int fd = __real_open(p.c_str(), O_RDONLY | O_NOFOLLOW | O_NONBLOCK);
  if (fd < 0)
    return "!" + std::to_string(errno);
  char buff[65536];
  ssize_t n;
  while ((n = __real_read(fd, buff, sizeof buff)) > 0)
    z.append(buff, n);
  close(fd);
  return z;
}

void
scan(std::string const &top, std::string const &rel, Tree &t)
{
  auto p = top + rel;
  struct stat s;
  if (__real_lstat(p.c_str(), &s) != 0)
    return;
  auto mode = s.st_mode & 07777;
  char hdr[32];
  snprintf(hdr, sizeof hdr, "%o:", s.st_mode);
  auto &item = t[rel];
  item       = hdr;
  if (S_ISLNK(s.st_mode)) {
    char buff[PATH_MAX];
    auto n = readlink(p.c_str(), buff, sizeof buff);
    item.append(buff, n < 0 ? 0 : n);
  } else if (S_ISREG(s.st_mode)) {
    if (!(mode & 0400))
      chmod(p.c_str(), 0600);
    item += slurp(p);
    if (!(mode & 0400))
      chmod(p.c_str(), mode);
  } else if (S_ISDIR(s.st_mode)) {
    bool open_p = (mode & 0500) == 0500;
    if (!open_p)
      chmod(p.c_str(), 0700);
    if (DIR *d = __real_opendir(p.c_str()); d) {
      while (auto e = __real_readdir(d))
        if (std::string n = e->d_name; n != "." && n != "..")
          scan(top, rel + "/" + n, t);
      closedir(d);
    }
    if (!open_p)
      chmod(p.c_str(), mode);
  }
}

/// Absolute link targets are in the tree.
Tree
scan(std::string const &top)
{
  Tree t;
  scan(top, "", t);
  for (auto &[k, v] : t)
    if (auto idx = v.find(top); idx != v.npos && v.substr(0, 6).find("12") != v.npos)
      v.replace(idx, top.size(), "TOP");
  return t;
}

/// Remove everything, without following links.
void
purge(std::string const &p)
{
  struct stat s;
  if (__real_lstat(p.c_str(), &s) != 0)
    return;
  if (S_ISDIR(s.st_mode)) {
    chmod(p.c_str(), 0700);
    std::vector<std::string> names;
    if (DIR *d = __real_opendir(p.c_str()); d) {
      while (auto e = __real_readdir(d))
        if (std::string n = e->d_name; n != "." && n != "..")
          names.push_back(n);
      closedir(d);
    }
    for (auto const &n : names)
      purge(p + "/" + n);
    __real_rmdir(p.c_str());
  } else {
    __real_unlink(p.c_str());
  }
}

// More than enough that no path gets above the tree.
std::string const WORK = "/w/w/w/w/w/w/w/w/w/w/w/w/w/w/w/w/cwd";

struct Step {
  enum { DIR, FILE, LINK, FIFO } kind;
  std::string path, data; // data is content or target
  bool absolute{false};   // link target
  mode_t mode{0};         // set at the end.
  timespec time{0, 0};
};

char const *NAMES[] = {"a", "b", "c", "dd", ".e"};

std::string
name(Src &g)
{
  static char const *const ODD[] = {"..f", "...", "..\xff", "x y", "a\n", "aa", "\\"};
  if (g.chance(6)) {
    size_t n = g.draw(std::size(ODD));
    return n < std::size(ODD) ? ODD[n] : std::string(NAME_MAX - g.draw(1), 'n');
  }
  return NAMES[g.draw(4)];
}

std::string
content(Src &g)
{
  switch (g.weighted({10, 60, 8, 2})) {
  case 0:
    return {};
  case 1:
    return g.bytes(20, 8);
  case 2:
    return std::string(65536 - 1 + g.draw(2), char('a' + g.draw(3)));
  default: {
    std::string z(g.draw(200000), 'x');
    for (size_t i = 0; i < z.size(); i += 97)
      z[i] = char(i / 97);
    return z;
  }
  }
}

/// Relative path in the tree.
std::string
rel_path(Src &g, unsigned max = 4)
{
  std::string z;
  unsigned n = 0, up = 0;
  do {
    if (n)
      z += g.chance(92) ? "/" : "//";
    if (g.chance(6))
      z += ".";
    else if (up < 2 && g.chance(6)) {
      z += "..";
      ++up;
    } else
      z += name(g);
    ++n;
  } while (g.more(2, n, max));
  return z;
}

struct World {
  std::string a, b; ///< Trees.
  std::string a_cwd, b_cwd;
  std::vector<std::string> made;
  bool linked = false, denied = false;

  void
  build(std::vector<Step> const &steps, std::string const &top)
  {
    __real_mkdir(top.c_str(), 0755);
    for (size_t i = 1; i <= WORK.size(); ++i)
      if (i == WORK.size() || WORK[i] == '/')
        __real_mkdir((top + WORK.substr(0, i)).c_str(), 0755);
    auto base = top + WORK + "/";
    for (auto const &s : steps) {
      auto p = base + s.path;
      switch (s.kind) {
      case Step::DIR:
        __real_mkdir(p.c_str(), 0755);
        break;
      case Step::FILE:
        if (int fd = __real_open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL | O_NOFOLLOW, 0644); fd >= 0) {
          size_t k = 0;
          while (k < s.data.size()) {
            auto n = __real_write(fd, s.data.data() + k, s.data.size() - k);
            if (n <= 0)
              break;
            k += n;
          }
          close(fd);
          timespec ts[2] = {s.time, s.time};
          if (s.time.tv_sec)
            utimensat(AT_FDCWD, p.c_str(), ts, AT_SYMLINK_NOFOLLOW);
        }
        break;
      case Step::LINK:
        if (symlink((s.absolute ? base + s.data : s.data).c_str(), p.c_str()) != 0) {
        }
        break;
      case Step::FIFO:
        mkfifo(p.c_str(), 0644);
        break;
      }
    }
    for (auto s = steps.rbegin(); s != steps.rend(); ++s)
      if (s->mode != 0xFFFF && s->kind != Step::LINK) {
        struct stat st;
        auto p = base + s->path;
        if (__real_lstat(p.c_str(), &st) == 0 && !S_ISLNK(st.st_mode))
          chmod(p.c_str(), s->mode);
      }
  }

  explicit World(Src &g)
  {
    setup();
    static unsigned count = 0;
    auto top              = Scratch + "/" + std::to_string(count++);
    __real_mkdir(top.c_str(), 0755);
    a     = top + "/A";
    b     = top + "/B";
    a_cwd = a + WORK;
    b_cwd = b + WORK;
    umask(g.pick({022, 0, 077}));
    std::vector<Step> steps;
    std::vector<std::string> dirs{""};
    std::set<std::string> names;
    unsigned n = 0;
    while (g.more(7, n, 16)) {
      ++n;
      Step s;
      auto dir = g.flip() ? dirs.back() : g.pick(dirs);
      s.path   = dir + name(g);
      if (!names.insert(s.path).second)
        continue;
      s.kind = std::array{Step::DIR, Step::FILE, Step::LINK, Step::FIFO}[g.weighted({40, 40, 25, 3})];
      s.mode = 0xFFFF;
      switch (s.kind) {
      case Step::DIR:
        if (std::count(s.path.begin(), s.path.end(), '/') < 4)
          dirs.push_back(s.path + "/");
        if (g.chance(8))
          s.mode = g.pick({0555, 0, 0311, 0444, 0775, 0700});
        denied |= s.mode != 0xFFFF;
        break;
      case Step::FILE:
        s.data = content(g);
        if (g.chance(15))
          s.mode = g.pick({0444, 0, 0222, 0755, 0600});
        if (g.chance(20)) {
          s.time.tv_sec  = int64_t(g.draw(8000000000)) - 3000000000;
          s.time.tv_nsec = g.draw(999999999);
        }
        break;
      case Step::LINK:
        s.data     = g.chance(80) ? g.pick({name(g), "../" + name(g), std::string("."), std::string("..")}) : rel_path(g);
        s.absolute = g.chance(20);
        linked     = true;
        break;
      default:
        break;
      }
      made.push_back(s.path);
      g.note("item ", int(s.kind), " ", s.path, s.kind == Step::LINK ? " -> " + s.data : "", s.mode != 0xFFFF ? " mode " + std::to_string(s.mode) : "");
      steps.push_back(s);
    }
    mode_t m = umask(022);
    umask(0);
    build(steps, a);
    build(steps, b);
    umask(m);
  }
  ~World()
  {
    Inject.armed = false;
    if (chdir("/") == 0)
      purge(a.substr(0, a.size() - 2));
  }

  /// Path of an operation, as it's in one or the other tree.
  struct Path {
    std::string a, b, rel;
  };
  Path
  pick(Src &g)
  {
    Path p;
    if (g.chance(2)) {
      p.rel = "";
      return p;
    }
    p.rel = made.empty() || g.chance(30) ? rel_path(g) : g.pick(made);
    if (g.chance(15))
      p.rel += "/" + name(g);
    if (g.chance(4))
      p.rel += "/";
    if (g.chance(2))
      p.rel += "/" + std::string(300, 'n'); // too long
    p.a = p.b = p.rel;
    if (g.chance(20)) {
      p.a = a_cwd + "/" + p.rel;
      p.b = b_cwd + "/" + p.rel;
    }
    return p;
  }
  void
  in_a()
  {
    if (chdir(a_cwd.c_str()) != 0) {
    }
  }
  void
  in_b()
  {
    if (chdir(b_cwd.c_str()) != 0) {
    }
  }
  bool
  exists()
  {
    struct stat s;
    return __real_stat(a_cwd.c_str(), &s) == 0 && __real_stat(b_cwd.c_str(), &s) == 0;
  }
};

// ---------------------------------------------------------------- the operations, as documented.
struct Result {
  bool ok{false};
  int err{0};
  std::string text;
  uintmax_t n{0};
};

Result
failed(int e)
{
  return {false, e, {}, 0};
}

Result
ref_load(std::string const &p)
{
  int fd = __real_open(p.c_str(), O_RDONLY);
  if (fd < 0)
    return failed(errno);
  Result r;
  char buff[10000];
  ssize_t n;
  while ((n = __real_read(fd, buff, sizeof buff)) > 0)
    r.text.append(buff, n);
  r.err = n < 0 ? errno : 0;
  r.ok  = n == 0;
  close(fd);
  return r;
}

Result
ref_remove(std::string const &p)
{
  struct stat s;
  if (p.empty())
    return failed(EINVAL);
  if (__real_lstat(p.c_str(), &s) != 0)
    return failed(errno);
  if ((S_ISDIR(s.st_mode) ? __real_rmdir(p.c_str()) : __real_unlink(p.c_str())) != 0)
    return failed(errno);
  return {true, 0, {}, 0};
}

Result
ref_remove_all(std::string const &p)
{
  struct stat s;
  if (p.empty())
    return failed(EINVAL);
  if (__real_lstat(p.c_str(), &s) != 0)
    return failed(errno);
  Result r;
  if (S_ISDIR(s.st_mode)) {
    DIR *d = __real_opendir(p.c_str());
    if (!d)
      return failed(errno);
    std::vector<std::string> names;
    while (auto e = __real_readdir(d))
      if (std::string n = e->d_name; n != "." && n != "..")
        names.push_back(n);
    closedir(d);
    for (auto const &n : names) {
      auto x  = ref_remove_all(p + "/" + n);
      r.n    += x.n;
      if (!r.err)
        r.err = x.err;
    }
    if (__real_rmdir(p.c_str()) != 0) {
      if (!r.err)
        r.err = errno;
    } else {
      ++r.n;
    }
  } else if (__real_unlink(p.c_str()) != 0) {
    r.err = errno;
  } else {
    ++r.n;
  }
  r.ok = r.err == 0;
  return r;
}

Result
ref_mkdir(std::string const &p, mode_t mode)
{
  if (p.empty())
    return failed(EINVAL);
  if (__real_mkdir(p.c_str(), mode) != 0) {
    int e = errno;
    struct stat s;
    if (e == EEXIST && __real_stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode))
      return {true, 0, {}, 0};
    return failed(e);
  }
  return {true, 0, {}, 0};
}

Result
ref_mkdirs(std::string const &p, mode_t mode)
{
  if (p.empty())
    return failed(EINVAL);
  for (size_t i = 1; i <= p.size(); ++i)
    if ((i == p.size() || p[i] == '/') && p[i - 1] != '/')
      if (auto r = ref_mkdir(p.substr(0, i), mode); !r.ok)
        return r;
  return {true, 0, {}, 0};
}

Result
ref_copy(std::string const &from, std::string to)
{
  if (from.empty() || to.empty())
    return failed(EINVAL);
  int src = __real_open(from.c_str(), O_RDONLY);
  if (src < 0)
    return failed(errno);
  struct stat s, d;
  __real_fstat(src, &s);
  if (S_ISDIR(s.st_mode)) {
    close(src);
    return failed(EISDIR);
  }
  if (__real_stat(to.c_str(), &d) == 0 && S_ISDIR(d.st_mode)) {
    if (to.back() != '/')
      to += '/';
    to += from.substr(from.rfind('/') + 1);
  }
  if (__real_stat(to.c_str(), &d) == 0 && d.st_ino == s.st_ino && d.st_dev == s.st_dev) {
    close(src);
    return {true, 0, "same", 0};
  }
  int dst = __real_open(to.c_str(), O_WRONLY | O_CREAT | O_TRUNC, s.st_mode & 07777);
  Result r;
  if (dst < 0) {
    r = failed(errno);
  } else {
    char buff[70000];
    ssize_t n;
    r.ok = true;
    while ((n = __real_read(src, buff, sizeof buff)) > 0)
      if (__real_write(dst, buff, n) != n) {
        r = failed(errno);
        break;
      }
    close(dst);
  }
  close(src);
  return r;
}

Result
ref_canonical(std::string const &p)
{
  if (p.empty())
    return failed(EINVAL);
  char buff[PATH_MAX + 1];
  if (!__real_realpath(p.c_str(), buff))
    return failed(errno);
  return {true, 0, buff, 0};
}

int
lowest_fd()
{
  int fd = dup(2);
  close(fd);
  return fd;
}

void
arm(Src &g, std::initializer_list<Call> calls)
{
  Inject      = Fault{};
  Inject.call = g.pick(std::vector<Call>(calls));
  Inject.skip = g.chance(60) ? 0 : g.draw(4);
  bool io     = Inject.call == READ || Inject.call == WRITE;
  Inject.err  = io && g.chance(40) ? 0 : g.pick({EIO, ENOMEM, EACCES, ENOSPC, EMFILE});
  if (Inject.call == READDIR)
    Inject.err = EIO;
  Inject.len   = 1 + g.draw(9);
  Inject.armed = true;
}

std::error_code
stale(Src &g)
{
  return g.flip() ? std::error_code() : std::error_code(g.pick({EINVAL, ENOENT, EPERM}), std::system_category());
}

std::string
describe(Tree const &x, Tree const &y)
{
  std::string z;
  for (auto const &[k, v] : x) {
    auto spot = y.find(k);
    if (spot == y.end())
      z += " only in library tree: " + k + ";";
    else if (spot->second != v)
      z += " differs: " + k + " (" + pbt::esc(v.substr(0, 60)) + " / " + pbt::esc(spot->second.substr(0, 60)) + ");";
  }
  for (auto const &[k, v] : y)
    if (!x.count(k))
      z += " missing in library tree: " + k + ";";
  return z;
}

bool
blocks(std::string const &p)
{
  struct stat s;
  return __real_stat(p.c_str(), &s) == 0 && S_ISFIFO(s.st_mode);
}
} // namespace

/// So that what isn't initialized isn't zero by chance.
__attribute__((noinline)) static void
dirty_stack()
{
  volatile char junk[2000];
  for (auto &c : junk)
    c = 0x5A;
}

PROPERTY(operations, 10, "at least three operations, one of which changed the tree, and one of which failed or a link is in the tree")
{
  World w{g};
  unsigned n   = 0;
  bool changed = false, error = false, faulty = false;
  static char const *OPS[] = {"load", "copy", "mkdir", "mkdirs", "remove", "remove_all", "canonical"};
  Tree before              = scan(w.a);
  REQ(before == scan(w.b), "harness - trees differ initially", describe(before, scan(w.b)));
  while (g.more(5, n, 12)) {
    ++n;
    if (!w.exists())
      break;
    unsigned op = g.weighted({10, 25, 10, 20, 15, 15, 10});
    auto p      = w.pick(g);
    auto ec     = stale(g);
    mode_t mode = g.chance(60) ? 0775 : g.pick({0700, 0777, 0500});
    Result want, got;
    bool short_io = false;
    World::Path q;
    int fd = lowest_fd();
    bool inject = g.chance(20);
    w.in_a();
    if (op == 4 || op == 5) { // Don't remove what is used to get there.
      char buff[PATH_MAX + 1];
      bool link_p = false;
      struct stat s;
      auto bare = p.a;
      while (bare.size() > 1 && bare.back() == '/')
        bare.pop_back();
      link_p = __real_lstat(bare.c_str(), &s) == 0 && S_ISLNK(s.st_mode);
      if (link_p && bare != p.a)
        continue;
      auto tail = bare.substr(bare.rfind('/') + 1);
      if (tail == "." || tail == "..")
        continue;
      if (!link_p && __real_realpath(p.a.c_str(), buff) && w.a_cwd.compare(0, strlen(buff), buff) == 0)
        continue;
      if (op == 4 && !link_p && __real_lstat(bare.c_str(), &s) == 0 && !S_ISREG(s.st_mode) && !S_ISDIR(s.st_mode))
        continue; // not defined for these.
    }
    if ((op == 0 || op == 1) && blocks(p.a))
      continue;
    if (op == 1) {
      q = w.pick(g);
      if (blocks(q.a))
        continue;
      auto inner = q.a + "/" + p.a.substr(p.a.rfind('/') + 1);
      if (blocks(inner))
        continue;
    }
    g.note("op ", OPS[op], " ", p.a == p.rel ? "" : "absolute ", p.rel, op == 1 ? " to " + q.rel : "", " mode ", int(mode),
           inject ? " fault" : "");
    if (inject) {
      switch (op) {
      case 0:
        arm(g, {OPEN, READ, READ, STAT});
        break;
      case 1:
        arm(g, {OPEN, OPEN, READ, READ, WRITE, WRITE, STAT, TRUNCATE});
        break;
      case 2:
      case 3:
        arm(g, {MKDIR});
        break;
      case 4:
        arm(g, {UNLINK, RMDIR, STAT});
        break;
      case 5:
        arm(g, {UNLINK, RMDIR, STAT, OPENDIR, READDIR});
        break;
      default:
        arm(g, {REALPATH});
        break;
      }
      g.note("fault call ", int(Inject.call), " skip ", Inject.skip, " error ", Inject.err);
    }
    bool ec_p = true; // The error is expected to be the reference error.
    switch (op) {
    case 0:
      got.text = file::load(path(p.a), ec);
      got.ok   = !ec;
      break;
    case 1:
      got.ok = file::copy(path(p.a), path(q.a), ec);
      break;
    case 2:
      got.ok = file::create_directory(path(p.a), ec, mode);
      break;
    case 3:
      got.ok = file::create_directories(path(p.a), ec, mode);
      ec_p   = false;
      break;
    case 4:
      got.ok = file::remove(path(p.a), ec);
      break;
    case 5:
      got.n  = file::remove_all(path(p.a), ec);
      got.ok = !ec;
      ec_p   = false;
      break;
    case 6:
      got.text = file::canonical(path(p.a), ec).string();
      got.ok   = !ec;
      if (ec)
        REQ_EQ(got.text, std::string{}, "canonical with an error");
      break;
    }
    bool hit     = Inject.armed && Inject.hit;
    Inject.armed = false;
    got.err      = ec.value();
    REQ_EQ(lowest_fd(), fd, "file descriptor left open by ", OPS[op]);
    w.in_b();
    switch (op) {
    case 0:
      want = ref_load(p.b);
      break;
    case 1:
      want = ref_copy(p.b, q.b);
      break;
    case 2:
      want = ref_mkdir(p.b, mode);
      break;
    case 3:
      want = ref_mkdirs(p.b, mode);
      break;
    case 4:
      want = ref_remove(p.b);
      break;
    case 5:
      want = ref_remove_all(p.b);
      break;
    case 6:
      want = ref_canonical(p.b);
      if (want.ok && want.text.compare(0, w.b.size(), w.b) == 0)
        want.text.replace(0, w.b.size(), w.a);
      break;
    }
    if (chdir("/") != 0) {
    }
    auto ta = scan(w.a), tb = scan(w.b);
    bool moved = ta != before;
    changed   |= moved;
    error     |= !got.ok;
    faulty    |= hit;
    g.note("  result ", got.ok, " error ", got.err, " count ", got.n, hit ? " fault injected" : "", moved ? " changed" : "");
    std::string what = std::string(OPS[op]) + " " + p.rel + (op == 1 ? " to " + q.rel : "");
    REQ_EQ(got.ok, !ec, "result and error of ", what, " error ", ec.message());
    if (op == 5) { // what is reported is what happened.
      uintmax_t gone = 0;
      for (auto const &[k, v] : before)
        gone += !ta.count(k);
      REQ_EQ(got.n, gone, "items reported as removed by ", what);
      for (auto const &[k, v] : ta)
        REQ(before.count(k) && before[k] == v, "item changed by ", what, " - ", k);
    }
    if (hit && !short_io && Inject.err == 0)
      hit = false; // Transfer in pieces isn't an error.
    if (hit) {
      if (got.ok) { // if the call can fail without consequences then the result must be the same.
        REQ(want.ok, what, " reported success with a fault but should have failed with ", want.err);
      } else if (want.ok && op != 5 && (Inject.call != STAT && Inject.call != TRUNCATE)) {
        REQ_EQ(got.err, Inject.err, "error reported by ", what);
      }
      if (!got.ok) {
        if (op != 1 && op != 3 && op != 5)
          REQ(!moved, what, " failed but changed the tree", describe(ta, before));
        else if (op == 1) { // Only the target can be different.
          std::string diff;
          for (auto const &[k, v] : before)
            if (!ta.count(k) || ta[k] != v)
              REQ(tb.count(k) && (tb[k] != v || tb == before) && S_ISREG(strtol(v.c_str(), nullptr, 8)), what, " failed and changed ", k);
        }
        break; // not comparable after this.
      }
    }
    bool same = op == 1 && want.text == "same"; // copy to itself
    if (same) {
      REQ(!moved, what, " is to itself but changed the tree", describe(ta, before));
      continue;
    }
    REQ_EQ(got.ok, want.ok, what, " errors are ", got.err, " and ", want.err);
    if (!want.ok && ec_p && !(op == 1 && want.err == EISDIR))
      REQ_EQ(got.err, want.err, "error of ", what);
    if (want.ok) {
      if (op == 0)
        REQ(got.text == want.text, "content of ", what, " size ", got.text.size(), " expected ", want.text.size());
      if (op == 6)
        REQ_EQ(got.text, want.text, what);
      if (op == 5)
        REQ_EQ(got.n, want.n, "count of ", what);
    }
    if (!want.ok && op == 5) // It's not required to continue after the first error.
      break;
    REQ(ta == tb, "tree after ", what, describe(ta, tb));
    before = ta;
  }
  g.nontrivial(n > 2 && changed && (error || w.linked));
  g.label("fault", faulty);
  g.label("error", error);
  g.label("changed", changed);
  g.label("link", w.linked);
}

PROPERTY(queries, 5, "at least three queries, and one for something that exists")
{
  World w{g};
  w.in_a();
  unsigned n = 0, found = 0;
  while (g.more(8, n, 20)) {
    ++n;
    auto p = w.pick(g);
    struct stat s;
    int err = __real_stat(p.a.c_str(), &s) == 0 ? 0 : errno;
    auto ec = stale(g);
    path t{p.a};
    int fd  = lowest_fd();
    found  += err == 0;
    g.note("path ", p.a, " error ", err);
    auto what = p.rel;
    switch (g.draw(5)) {
    case 0:
    case 1: {
      dirty_stack();
      auto st = file::status(t, ec);
      REQ_EQ(ec.value(), err, "status of ", what);
      REQ_EQ(file::exists(st), err == 0, what);
      if (err == 0) {
        using file::file_type;
        REQ_EQ(st.mode(), s.st_mode);
        REQ_EQ(file::file_size(st), uintmax_t(s.st_size));
        REQ_EQ(file::is_dir(st), S_ISDIR(s.st_mode));
        REQ_EQ(file::is_regular_file(st), S_ISREG(s.st_mode));
        REQ(!file::is_char_device(st) && !file::is_block_device(st));
        auto type = S_ISDIR(s.st_mode) ? decltype(st.type())::directory :
                    S_ISREG(s.st_mode) ? decltype(st.type())::regular :
                                         decltype(st.type())::fifo;
        REQ(st.type() == type, what);
        auto ns = [](timespec const &x) { return x.tv_sec * 1000000000L + x.tv_nsec; };
        auto of = [](file::file_time_type x) { return std::chrono::duration_cast<std::chrono::nanoseconds>(x.time_since_epoch()).count(); };
        REQ_EQ(of(file::last_write_time(st)), ns(s.st_mtim), "modified ", what);
        REQ_EQ(of(file::access_time(st)), ns(s.st_atim), "accessed ", what);
        REQ_EQ(of(file::status_time(st)), ns(s.st_ctim), "changed ", what);
      } else {
        REQ(file::file_size(st) == 0 && st.mode() == 0, "there is no file so nothing to report, not ", file::file_size(st), " / ", st.mode());
        REQ(!file::is_dir(st) && !file::is_regular_file(st) && !file::is_char_device(st) && !file::is_block_device(st));
        if (err == ENOENT) {
          using FT = decltype(st.type());
          REQ(st.type() == FT::not_found);
          for (auto t : {FT::none, FT::regular, FT::directory, FT::symlink, FT::block, FT::character, FT::fifo, FT::socket, FT::unknown})
            REQ(st.type() != t, "a missing file has the type of others");
        }
        else
          REQ(st.type() == decltype(st.type())::none || st.type() == decltype(st.type())::not_found);
      }
    } break;
    case 2: {
      auto tm = file::last_write_time(t, ec);
      REQ_EQ(ec.value(), err, "last write of ", what);
      if (err)
        REQ(tm == file::file_time_type::min());
      else
        REQ_EQ(std::chrono::duration_cast<std::chrono::nanoseconds>(tm.time_since_epoch()).count(),
               s.st_mtim.tv_sec * 1000000000L + s.st_mtim.tv_nsec);
    } break;
    case 3:
      REQ_EQ(file::exists(t), err == 0, what);
      REQ_EQ(file::is_readable(t), access(p.a.c_str(), R_OK) == 0, what);
      break;
    case 4: {
      auto abs = file::absolute(t, ec);
      REQ_EQ(bool(ec), abs.empty(), "absolute of ", what);
      if (!abs.empty()) {
        struct stat s2;
        REQ(abs.is_absolute(), what);
        REQ(err || (__real_stat(abs.c_str(), &s2) == 0 && s2.st_ino == s.st_ino && s2.st_dev == s.st_dev), what, " as absolute is a different file, ", abs.string());
        if (t.is_absolute())
          REQ_EQ(abs.string(), t.string());
      } else {
        REQ(err != 0, "no absolute path for ", what);
      }
    } break;
    case 5: {
      REQ_EQ(file::current_path().string(), w.a_cwd);
      auto c = file::canonical(t, ec);
      auto r = ref_canonical(p.a);
      REQ_EQ(ec.value(), r.err);
      REQ_EQ(c.string(), r.text);
    } break;
    }
    REQ_EQ(lowest_fd(), fd, "file descriptor left open for ", what);
  }
  g.nontrivial(n > 2 && found);
}

// Descriptor 0 is available while this exists, as in a process that was started without standard input.
struct NoInput {
  int saved{-1};
  explicit NoInput(bool p)
  {
    if (p && (saved = fcntl(0, F_DUPFD, 10)) >= 0)
      close(0);
  }
  ~NoInput()
  {
    if (saved >= 0) {
      dup2(saved, 0);
      close(saved);
    }
  }
};

// Every transfer can be shorter than requested, and any descriptor can be used.
PROPERTY(pieces, 1, "content transferred in more than one piece")
{
  setup();
  auto dir = Scratch + "/pieces";
  __real_mkdir(dir.c_str(), 0755);
  auto from = dir + "/from", to = dir + "/to";
  static constexpr size_t B = 65536;
  size_t n = g.weighted({50, 50}) ? g.draw(3) * B + g.draw(200) : g.draw(300);
  if (g.chance(30))
    n -= std::min<size_t>(n, g.draw(300));
  std::string data(n, 0);
  unsigned char seed = g.draw(255);
  for (size_t i = 0; i < n; ++i)
    data[i] = char(seed + i + i / 251 + i / 65521);
  std::string old(g.pick({size_t(0), size_t(5), n / 2, n, n + 1, n + 70000}), 'o');
  bool present = g.flip();
  auto put     = [](std::string const &f, std::string const &d) {
    int h = __real_open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    for (size_t k = 0; k < d.size();) {
      auto r = __real_write(h, d.data() + k, d.size() - k);
      if (r <= 0)
        abort();
      k += r;
    }
    close(h);
  };
  put(from, data);
  unlink(to.c_str());
  if (present)
    put(to, old);
  std::vector<size_t> pieces;
  size_t least = n > 1000 ? 5000 : 1; // limit the # of calls.
  for (int i = 0, k = g.draw(5); i < k; ++i)
    pieces.push_back(g.pick({least + size_t(g.draw(100)), least + size_t(g.draw(70000)), size_t(65535), size_t(65536)}));
  bool low = g.flip();
  auto ec  = stale(g);
  g.note("size ", n, " previous ", present ? long(old.size()) : -1, low ? " no standard input" : "", " pieces");
  for (auto k : pieces)
    g.note("  ", k);
  std::string loaded;
  int spare = -1, spare_after = -1;
  bool rv   = false;
  std::error_code ec2 = ec;
  {
    NoInput none(low);
    spare         = lowest_fd();
    Inject.armed  = false;
    Inject.pieces = pieces;
    Inject.turn   = 0;
    loaded        = file::load(path(from), ec);
    rv            = file::copy(path(from), path(to), ec2);
    Inject.pieces.clear();
    spare_after = lowest_fd();
  }
  REQ_EQ(ec.value(), 0, "load");
  REQ_EQ(loaded.size(), data.size(), "load");
  REQ(loaded == data, "loaded different content");
  REQ(rv && ec2.value() == 0, "copy ", ec2.value());
  auto got = slurp(to);
  REQ_EQ(got.size(), data.size(), "copy");
  REQ(got == data, "copied different content");
  REQ_EQ(spare_after, spare, "descriptor left open");
  bool many = false;
  for (auto k : pieces)
    many |= k < n;
  g.label("several", many);
  g.label("descriptor 0", low);
  g.nontrivial(many || n >= B);
}

// Files that aren't in the tree, and descriptors.
PROPERTY(special, 1, "always")
{
  setup();
  g.nontrivial();
  auto ec = stale(g);
  int fd  = lowest_fd();
  switch (g.draw(5)) {
  case 0: { // files that have content but no size.
    auto p = g.pick({std::string("/proc/version"), std::string("/proc/filesystems"), std::string("/proc/devices")});
    auto r = ref_load(p);
    if (r.ok) {
      auto txt = file::load(path(p), ec);
      REQ_EQ(ec.value(), 0, "loading ", p);
      REQ_EQ(txt, r.text, "loading ", p);
    }
  } break;
  case 1: { // Always full
    auto dir = Scratch + "/special";
    __real_mkdir(dir.c_str(), 0755);
    auto f = dir + "/f";
    auto c = content(g) + "x";
    int h  = __real_open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    __real_write(h, c.data(), c.size());
    close(h);
    struct stat s;
    if (access("/dev/full", W_OK) == 0 && __real_stat("/dev/full", &s) == 0 && S_ISCHR(s.st_mode)) {
      bool rv = file::copy(path(f), path("/dev/full"), ec);
      REQ(!rv, "copied to a full device");
      REQ_EQ(ec.value(), ENOSPC);
      REQ(file::is_char_device(file::status(path("/dev/full"), ec)));
    }
    if (access("/dev/null", W_OK) == 0) {
      REQ(file::copy(path(f), path("/dev/null"), ec), "copy to the null device ", ec.message());
      REQ(!ec);
      auto txt = file::load(path("/dev/null"), ec);
      REQ(txt.empty() && !ec);
    }
    purge(dir);
  } break;
  case 2: {
    NoInput none_p(g.flip());
    int spare = lowest_fd();
    int h     = __real_open("/dev/null", O_RDONLY);
    {
      file::unique_fd x{h};
      REQ_EQ(int(x), h);
      file::unique_fd y{std::move(x)};
      REQ_EQ(int(x), file::NO_FD);
      REQ_EQ(int(y), h);
      if (g.flip()) {
        file::unique_fd z{std::move(y)};
        if (g.flip()) {
          REQ_EQ(z.release(), h);
          REQ_EQ(int(z), file::NO_FD);
          close(h);
        } else {
          REQ(fcntl(z, F_GETFD) >= 0);
        }
      }
    }
    REQ(fcntl(h, F_GETFD) < 0, "descriptor wasn't closed");
    REQ_EQ(lowest_fd(), spare);
    file::unique_fd none{file::NO_FD};
  } break;
  case 3: { // environment
    static char const *VARS[] = {"TMPDIR", "TMP", "TEMP", "TEMPDIR"};
    std::string want          = "/tmp";
    for (auto v : VARS)
      unsetenv(v);
    for (int i = 3; i >= 0; --i)
      if (g.flip()) {
        want = "/x" + std::to_string(g.draw(100));
        setenv(VARS[i], want.c_str(), 1);
      }
    REQ_EQ(file::temp_directory_path().string(), want);
    for (auto v : VARS)
      unsetenv(v);
  } break;
  case 4: { // not there
    dirty_stack();
    file::file_status none;
    REQ(file::file_size(none) == 0 && none.mode() == 0, "indeterminate");
    REQ(!file::exists(none) && !file::is_dir(none) && !file::is_regular_file(none));
    REQ(none.type() == decltype(none.type())::none);
  } break;
  case 5: { // a large sparse file, times long ago and far ahead.
    auto dir = Scratch + "/special";
    __real_mkdir(dir.c_str(), 0755);
    auto f      = dir + "/f";
    int h       = __real_open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    off_t n     = (off_t(1) << g.range(20, 42)) + off_t(g.draw(3)) - 1;
    auto second = [&]() -> time_t {
      return g.flip() ? time_t(g.draw(100)) - 50 : g.flip() ? time_t(g.draw(1 << 30)) - (1 << 30) : time_t(g.draw(9000000000ul));
    };
    timespec t[2] = {{second(), long(g.draw(999999999))}, {second(), long(g.draw(999999999))}};
    g.note("size ", n, " times ", t[0].tv_sec, ".", t[0].tv_nsec, " ", t[1].tv_sec, ".", t[1].tv_nsec);
    bool ok_p = h >= 0 && __real_ftruncate(h, n) == 0;
    close(h);
    bool time_p = utimensat(AT_FDCWD, f.c_str(), t, 0) == 0;
    struct stat s;
    if (ok_p && __real_stat(f.c_str(), &s) == 0) {
      auto st = file::status(path(f), ec);
      REQ_EQ(file::file_size(st), uintmax_t(n), "size of a large file");
      REQ_EQ(file::file_size(st), uintmax_t(s.st_size));
      auto of = [](file::file_time_type x) { return std::chrono::duration_cast<std::chrono::nanoseconds>(x.time_since_epoch()).count(); };
      auto ns = [](timespec const &x) { return x.tv_sec * 1000000000L + x.tv_nsec; };
      REQ_EQ(of(file::access_time(st)), ns(s.st_atim), "access time");
      REQ_EQ(of(file::last_write_time(st)), ns(s.st_mtim), "write time");
      REQ_EQ(of(file::last_write_time(path(f), ec)), ns(s.st_mtim), "write time");
      g.label("before 1970", time_p && s.st_mtim.tv_sec < 0);
      g.label("over 4 GB", n >= off_t(1) << 32);
    }
    unlink(f.c_str());
    purge(dir);
  } break;
  }
  REQ_EQ(lowest_fd(), fd);
}
