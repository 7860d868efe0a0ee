// C30: a call changes nothing in the process but what it returns.
#include "locales.hpp"
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
using namespace pbt;
using namespace calls;
using namespace locales;
extern char **environ;

// What the threads of a process share is not changed for a time, either: calls of these are noted.
#include <dlfcn.h>
static thread_local bool watched = false;
static thread_local const char *meanwhile = nullptr;
static void note(const char *what) { if (watched) meanwhile = what; }
template <class F> static F next(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define NEXT(name) static auto real = next<decltype(&name)>(#name)
extern "C" {
char *setlocale(int c, const char *l) noexcept { NEXT(setlocale); if (l) note("the C locale (setlocale)"); return real(c, l); }
int setenv(const char *n, const char *v, int o) noexcept { NEXT(setenv); note("the environment (setenv)"); return real(n, v, o); }
int putenv(char *v) noexcept { NEXT(putenv); note("the environment (putenv)"); return real(v); }
int unsetenv(const char *n) noexcept { NEXT(unsetenv); note("the environment (unsetenv)"); return real(n); }
int chdir(const char *d) noexcept { NEXT(chdir); note("the working directory (chdir)"); return real(d); }
int sigaction(int g, const struct sigaction *a, struct sigaction *o) noexcept { static auto real = next<int (*)(int, const struct sigaction *, struct sigaction *)>("sigaction"); if (a) note("a signal handler (sigaction)"); return real(g, a, o); }
sighandler_t signal(int g, sighandler_t h) noexcept { static auto real = next<sighandler_t (*)(int, sighandler_t)>("signal"); note("a signal handler (signal)"); return real(g, h); }
}
// Everything that is looked at before and after.
struct State {
  char loc[512]; locale_t thread_loc; std::locale cpp; char point[16], sep[16];
  int round; unsigned mxcsr; unsigned short x87;
  sigset_t mask; void *handlers[32]; 
  char **env; u64 env_hash;
  std::terminate_handler term; std::new_handler newh;
  std::ios::fmtflags flags[3]; std::streamsize prec[3], width[3]; std::streambuf *buf[3]; char fill[3]; std::ios::iostate io[3]; bool cpp_same[3];
  std::locale cout_loc;
  int next_fd; mode_t um; u64 ino; struct rlimit core, stack, files; struct itimerval timer; nlink_t threads; int prio;
  int err;
};
static std::ios *const STREAMS[] = {&std::cout, &std::cerr, &std::cin};
static void take(State &t, int err) {
  t.err = err;
  snprintf(t.loc, sizeof t.loc, "%s", setlocale(LC_ALL, nullptr));
  t.thread_loc = uselocale(nullptr);
  t.cpp = std::locale();
  lconv *l = localeconv();
  snprintf(t.point, sizeof t.point, "%s", l->decimal_point);
  snprintf(t.sep, sizeof t.sep, "%s", l->thousands_sep);
  t.round = fegetround();
  __asm__ volatile("stmxcsr %0" : "=m"(t.mxcsr));
  t.mxcsr &= 0xffc0;                                    // not the flags of exceptions that have occurred
  __asm__ volatile("fnstcw %0" : "=m"(t.x87));
  sigprocmask(SIG_SETMASK, nullptr, &t.mask);
  for (int i = 1; i < 32; i++) { struct sigaction a; t.handlers[i] = sigaction(i, nullptr, &a) == 0 ? reinterpret_cast<void *>(a.sa_handler) : nullptr; }
  t.env = environ;
  u64 h = 0;
  for (char **e = environ; e && *e; e++) h = hash_bytes(*e, strlen(*e), h + 1);
  t.env_hash = h;
  t.term = std::get_terminate(); t.newh = std::get_new_handler();
  for (int i = 0; i < 3; i++) { std::ios &s = *STREAMS[i]; t.flags[i] = s.flags(); t.prec[i] = s.precision(); t.width[i] = s.width(); t.buf[i] = s.rdbuf(); t.fill[i] = s.fill(); t.io[i] = s.exceptions(); }
  t.cout_loc = std::cout.getloc();
  t.next_fd = open("/dev/null", O_RDONLY);
  if (t.next_fd >= 0) close(t.next_fd);
  t.um = umask(0); umask(t.um);
  struct stat st; t.ino = stat(".", &st) == 0 ? u64(st.st_ino) * 31 + st.st_dev : 0;
  getrlimit(RLIMIT_CORE, &t.core); getrlimit(RLIMIT_STACK, &t.stack); getrlimit(RLIMIT_NOFILE, &t.files);
  getitimer(ITIMER_REAL, &t.timer);
  t.threads = stat("/proc/self/task", &st) == 0 ? st.st_nlink : 0;
  t.prio = getpriority(PRIO_PROCESS, 0);
}
static std::string differs(const State &a, const State &b) {
  if (strcmp(a.loc, b.loc)) return std::string("the C locale, from ") + a.loc + " to " + b.loc;
  if (a.thread_loc != b.thread_loc) return "the locale of the thread";
  if (!(a.cpp == b.cpp)) return "the global C++ locale";
  if (strcmp(a.point, b.point) || strcmp(a.sep, b.sep)) return "the numeric conventions in force";
  if (a.round != b.round) return "the rounding mode";
  if (a.mxcsr != b.mxcsr || a.x87 != b.x87) return "the floating-point control word";
  if (memcmp(&a.mask, &b.mask, sizeof(unsigned long))) return "the signal mask";
  for (int i = 1; i < 32; i++) if (a.handlers[i] != b.handlers[i]) return "the handler of signal " + oracle::dec(u64(i));
  if (a.env != b.env || a.env_hash != b.env_hash) return "the environment";
  if (a.term != b.term || a.newh != b.newh) return "the terminate or new handler";
  for (int i = 0; i < 3; i++) if (a.flags[i] != b.flags[i] || a.prec[i] != b.prec[i] || a.width[i] != b.width[i] || a.buf[i] != b.buf[i] || a.fill[i] != b.fill[i] || a.io[i] != b.io[i]) return "the format of a standard stream";
  if (!(a.cout_loc == b.cout_loc)) return "the locale of std::cout";
  if (a.next_fd != b.next_fd) return "the open files";
  if (a.um != b.um || a.ino != b.ino) return "the working directory or umask";
  if (memcmp(&a.core, &b.core, sizeof a.core) || memcmp(&a.stack, &b.stack, sizeof a.stack) || memcmp(&a.files, &b.files, sizeof a.files)) return "a resource limit";
  if (memcmp(&a.timer, &b.timer, sizeof a.timer)) return "a timer";
  if (a.threads != b.threads) return "the number of threads";
  if (a.prio != b.prio) return "the priority";
  if (a.err != b.err) return "errno, from " + oracle::dec_signed(a.err) + " to " + oracle::dec_signed(b.err);
  return "";
}
static void on_signal(int) {}
// What the process has set, besides locale and rounding, as the case wants it.
struct Setting {
  sigset_t old; std::ios::fmtflags f; std::streamsize p; char c;
  explicit Setting(u64 k) {
    sigset_t m; sigemptyset(&m);
    static const int S[] = {SIGUSR1, SIGFPE, SIGINT, SIGPIPE, SIGHUP, SIGWINCH};
    for (int i = 0; i < 6; i++) if (k >> i & 1) sigaddset(&m, S[i]);
    sigprocmask(SIG_SETMASK, &m, &old);
    for (int i = 0; i < 6; i++) signal(S[i], k >> (6 + i) & 1 ? on_signal : k >> (12 + i) & 1 ? SIG_IGN : SIG_DFL);
    f = std::cout.flags(); p = std::cout.precision(); c = std::cout.fill();
    if (k >> 18 & 1) { std::cout.setf(std::ios::hex, std::ios::basefield); std::cout.setf(std::ios::boolalpha); std::cout.precision(3); std::cout.fill('*'); }
  }
  ~Setting() {
    static const int S[] = {SIGUSR1, SIGFPE, SIGINT, SIGPIPE, SIGHUP, SIGWINCH};
    for (int g : S) signal(g, SIG_DFL);
    sigprocmask(SIG_SETMASK, &old, nullptr);
    std::cout.flags(f); std::cout.precision(p); std::cout.fill(c);
  }
};
// Output goes to a file of our own meanwhile.
struct Output {
  int out, err;
  static int file() { static pid_t owner = 0; static int fd = -1; if (owner != getpid()) { fd = memfd_create("c30", 0); owner = getpid(); } return fd; }
  Output() { fflush(stdout); fflush(stderr); out = dup(1); err = dup(2); dup2(file(), 1); dup2(file(), 2); }
  ~Output() { dup2(out, 1); dup2(err, 2); close(out); close(err); }
  std::string text() {
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    struct stat st;
    if (fstat(file(), &st) || st.st_size == 0) return "";
    std::string t(size_t(st.st_size), '\0');
    if (pread(file(), &t[0], t.size(), 0) < 0) t = "?";
    if (ftruncate(file(), 0)) {} lseek(file(), 0, SEEK_SET);
    return t;
  }
};
static void one(Src &s, const std::vector<Call> &cs, u64 how, u64 which, u64 rounding, u64 setting, bool formats, bool warm = true) {
  static const int E[] = {0, ERANGE, EINVAL, 12345, -1, ENOMEM};
  int err = E[s.draw(6)];
  std::string what;
  for (const Call &c : cs) what += (what.empty() ? "" : ", then ") + describe(c);
  s.desc([&] { return what; });
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
  std::vector<std::string> rs(cs.size());
  if (warm) for (size_t i = 0; i < cs.size(); i++) perform(cs[i]);    // what is set up once is set up now
  static State before, after;
  std::string diff, out, under, tokens;
  int r1, r2;
  {
    Output o;
    Scope sc(how, which, rounding);
    Setting st(setting);
    under = sc.what;
    unsigned seed = unsigned(which + setting);
    srand(seed);
    char words[] = "one two three";
    strtok(words, " ");
    take(before, err);
    meanwhile = nullptr;
    watched = true;
    errno = err;
    for (size_t i = 0; i < cs.size(); i++) rs[i] = perform(cs[i]);
    int e = errno;
    watched = false;
    take(after, formats ? e : err);
    char *w = strtok(nullptr, " ");
    tokens = w ? w : "nothing";
    r1 = rand();
    srand(seed);
    r2 = rand();
    out = o.text();
  }
  if (how != 3 && rounding) s.cls("rounding mode other than to nearest");
  static const char *const HOW[] = {"setlocale", "std::locale::global", "C++ locale with numpunct", "uselocale", "C++ locale with ctype", "both"};
  s.cls(HOW[how % 6]);
  diff = differs(before, after);
  CHECK(diff.empty(), what + ", under " + under + ", changes " + diff);
  CHECK(out.empty(), what + " writes " + show(out, 200) + " to the standard output or error");
  CHECK(!meanwhile, what + " changes " + meanwhile + " for a time");
  CHECK(tokens == "two", what + " disturbs strtok");
  CHECK(r1 == r2, what + " disturbs rand");
}
PROP_NOFUZZ(single_calls, 1500000, 20000000) {
  std::vector<Call> cs{call(s)};
  u64 how = s.draw(6), which = s.draw(640), r = s.draw(4), set = s.draw(1 << 19);
  one(s, cs, how, which, r, set, cs[0].kind < FORMATS + TEXTS);
}
PROP_NOFUZZ(sequences, 600000, 8000000) {
  std::vector<Call> cs = pool(s);
  bool formats = true;
  for (auto &c : cs) formats &= c.kind < FORMATS + TEXTS;
  u64 how = s.draw(6), which = s.draw(640), r = s.draw(4), set = s.draw(1 << 19);
  one(s, cs, how, which, r, set, formats);
}
// The first calls of a process.
PROP_NOFUZZ(first_calls, 40000, 600000) {
  std::vector<Call> cs = s.flip() ? std::vector<Call>{call(s)} : pool(s);
  bool formats = true;
  for (auto &c : cs) formats &= c.kind < FORMATS + TEXTS;
  u64 how = s.draw(6), which = s.draw(640), r = s.draw(4), set = s.draw(1 << 19);
  int p[2];
  if (pipe(p)) { perror("pipe"); _exit(3); }
  names();
  Output::file();
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    std::string bad;
    try { one(s, cs, how, which, r, set, formats, false); } catch (const Failure &f) { bad = f.msg; }
    if (write(p[1], bad.data(), bad.size()) < 0) _exit(4);
    _exit(0);
  }
  close(p[1]);
  std::string bad; char b[4096]; ssize_t k;
  while ((k = read(p[0], b, sizeof b)) > 0) bad.append(b, size_t(k));
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  s.draw(6);
  s.desc([&] { std::string o; for (auto &c : cs) o += (o.empty() ? "" : ", then ") + describe(c); return o; });
  s.nontrivial(hash_bytes(s.rec, *s.nrec * 8));
  CHECK(bad.empty(), "in a new process, " + bad);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a new process ends with status " + oracle::dec_signed(st));
}
