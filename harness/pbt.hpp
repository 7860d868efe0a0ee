// A small property-based testing engine.
//
// A property is a function of a Src: every random choice is drawn from it.
// The same function is driven in four ways:
//   random   the choices come from a generator seeded by (seed, property, case)
//   sweep    the first draw enumerates an index space completely
//   bytes    the choices are decoded from a byte string (libFuzzer)
//   replay   the choices come from a recorded list
// The choices of a case are recorded in memory shared with the supervising
// process, so that a crash or a hang leaves its case behind.  A failing list
// of choices is shrunk (deleting, zeroing and lowering choices) with every
// candidate run in a process of its own, and written as a replay file.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>

namespace pbt {

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using u128 = unsigned __int128;
using i128 = __int128;

constexpr size_t REC_CAP = 1 << 14;

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
inline u64 hash_bytes(const void *p, size_t n, u64 h = 0x1234567) {
  const u8 *b = static_cast<const u8 *>(p);
  h = mix(h ^ n);
  for (; n >= 8; n -= 8, b += 8) { u64 w; memcpy(&w, b, 8); h = mix(h ^ w); }
  u64 w = 0; memcpy(&w, b, n);
  return mix(h ^ w);
}
inline u64 hash_str(const std::string &s, u64 h = 0x1234567) { return hash_bytes(s.data(), s.size(), h); }

// Printable rendering of arbitrary bytes.
inline std::string show(const std::string &s, size_t max = 400) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c >= 0x20 && c < 0x7f) o += char(c);
    else { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
  }
  if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o + "\"";
}

struct Failure {
  std::string msg;
  std::string sub;              // redirect to another sub-property, if set
  std::vector<u64> choices;
};
struct Discard {};

struct Src;
struct Sub {
  const char *name;
  void (*fn)(Src &);
  u64 quick, thorough;          // cases per tier (random), or 0
  u64 sweep;                    // > 0: enumerate this many indices
  bool sweep_quick;             // enumerate in the quick tier as well
  bool fuzz;                    // worth giving to libFuzzer
};
inline std::vector<Sub> &subs() { static std::vector<Sub> v; return v; }
struct Reg { Reg(const Sub &s) { subs().push_back(s); } };

// PROP(name, quick, thorough): a generated property.  NOFUZZ: not for libFuzzer.
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROP(name, q, t) \
  static void name(pbt::Src &); \
  static pbt::Reg PBT_CAT(reg_, name)(pbt::Sub{#name, name, q, t, 0, true, true}); \
  static void name([[maybe_unused]] pbt::Src &s)
#define PROP_NOFUZZ(name, q, t) \
  static void name(pbt::Src &); \
  static pbt::Reg PBT_CAT(reg_, name)(pbt::Sub{#name, name, q, t, 0, true, false}); \
  static void name([[maybe_unused]] pbt::Src &s)
// SWEEP(name, n): the first draw, draw(n), enumerates 0..n-1 completely.
#define SWEEP(name, n) \
  static void name(pbt::Src &); \
  static pbt::Reg PBT_CAT(reg_, name)(pbt::Sub{#name, name, 0, 0, n, true, false}); \
  static void name([[maybe_unused]] pbt::Src &s)
// SWEEP_T: only in the thorough tier.
#define SWEEP_T(name, n) \
  static void name(pbt::Src &); \
  static pbt::Reg PBT_CAT(reg_, name)(pbt::Sub{#name, name, 0, 0, n, false, false}); \
  static void name([[maybe_unused]] pbt::Src &s)

struct Shared {                 // one per worker
  std::atomic<int> status;      // 0 running, 1 done, 2 failed
  std::atomic<u64> beat;
  int sub;
  u64 index;
  u64 nrec;
  u64 rec[REC_CAP];
  char msg[8192];
  int redirect;                 // index of the sub redirected to, or -1
  u64 nredirect;
  u64 redirect_choices[64];
  char stats[1 << 18];
};

struct Distinct {               // shared, lock-free set of hashes
  static constexpr u64 SIZE = 1ULL << 24, MASK = SIZE - 1;
  std::atomic<u64> slot[SIZE];
  std::atomic<u64> count;
  bool insert(u64 h) {
    if (h == 0) h = 1;
    for (u64 i = h & MASK, n = 0; n < 64; n++, i = (i + 1) & MASK) {
      u64 cur = slot[i].load(std::memory_order_relaxed);
      if (cur == h) return false;
      if (cur == 0) {
        if (slot[i].compare_exchange_strong(cur, h, std::memory_order_relaxed)) {
          count.fetch_add(1, std::memory_order_relaxed);
          return true;
        }
        if (cur == h) return false;
      }
    }
    return false;               // table crowded: not counted
  }
};

struct Src {
  enum Mode { RANDOM, SWEEPING, BYTES, REPLAY } mode = RANDOM;
  u64 st[2] = {1, 2};
  const u8 *bytes = nullptr;
  size_t nbytes = 0;
  const u64 *list = nullptr;
  size_t nlist = 0, pos = 0;
  u64 index = 0;
  bool first = true;
  u64 *rec = nullptr;
  u64 *nrec = nullptr;
  std::atomic<u64> *heart = nullptr;
  void tick() { if (heart) heart->fetch_add(1, std::memory_order_relaxed); }     // a long case is under way
  bool want_desc = false;
  std::string description;
  // statistics
  std::map<const char *, u64> *classes = nullptr;
  Distinct *distinct = nullptr;
  u64 quota = 0;                // hashes this worker may still insert
  u64 n_nontrivial = 0, n_enum = 0, n_extra = 0, salt = 0;

  void seed(u64 a, u64 b, u64 c) {
    st[0] = mix(a ^ mix(b ^ mix(c)));
    st[1] = mix(st[0] ^ c ^ 0x5555);
    if (!st[0] && !st[1]) st[0] = 1;
  }
  u64 next() {                  // xoroshiro128+
    u64 s0 = st[0], s1 = st[1], r = s0 + s1;
    s1 ^= s0;
    st[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
    st[1] = (s1 << 37) | (s1 >> 27);
    return r;
  }
  // Uniform in [0, n); n == 0 means all 64 bits.
  u64 draw(u64 n) {
    u64 v;
    switch (mode) {
      case SWEEPING:
        if (first) { first = false; v = index; break; }
        // fall through
      case RANDOM:
        v = next();
        if (n) v = u64((u128(v) * n) >> 64);
        break;
      case BYTES: {
        unsigned k = n == 0 ? 8 : 1;
        if (n) while (k < 8 && (n - 1) >> (8 * k)) k++;
        v = 0;
        for (unsigned i = 0; i < k; i++) v |= u64(pos < nbytes ? bytes[pos++] : 0) << (8 * i);
        if (n) v %= n;
        break;
      }
      default:
        v = pos < nlist ? list[pos] : 0;
        pos++;
        if (n) v %= n;
    }
    if (*nrec >= REC_CAP) throw Discard();
    rec[(*nrec)++] = v;
    return v;
  }
  // A value made by f from random numbers (a constant of the library, say),
  // recorded as itself: replays and libFuzzer give any 64 bits instead.
  template <class F> u64 given(F f) {
    if (mode == RANDOM || mode == SWEEPING) {
      first = false;
      u64 v = f(*this);
      if (*nrec >= REC_CAP) throw Discard();
      rec[(*nrec)++] = v;
      return v;
    }
    return draw(0);
  }
  bool exhausted() const {
    return (mode == BYTES && pos >= nbytes) || (mode == REPLAY && pos >= nlist);
  }
  u64 bits() { return draw(0); }
  i64 range(i64 lo, i64 hi) { return i64(u64(lo) + draw(u64(hi) - u64(lo) + 1)); }
  bool chance(u64 num, u64 den) { return draw(den) >= den - num; }   // 0 is "no"
  bool flip() { return draw(2); }
  // "one more element?", with the given mean length; 0 ends, so it shrinks.
  bool more(u64 mean) { return !exhausted() && draw(mean + 1) != 0; }
  template <class T, size_t N> const T &pick(const T (&a)[N]) { return a[draw(N)]; }
  template <class T> const T &pick(const std::vector<T> &a) { return a[draw(a.size())]; }
  void cls(const char *label) { if (classes) (*classes)[label]++; }
  // This case is non-trivial; the key identifies it among the others.
  void nontrivial(u64 key) {
    n_nontrivial++;
    if (distinct && quota) { quota--; distinct->insert(mix(key ^ salt)); }
  }
  // A sweep case that stands for n cases, all distinct by construction.
  void enumerated(u64 n) { n_enum += n; }
  void evaluated(u64 extra) { n_extra += extra; }     // cases beyond this one
  template <class F> void desc(F f) { if (want_desc) description = f(); }
};

[[noreturn]] inline void fail(const std::string &msg) { throw Failure{msg, "", {}}; }
[[noreturn]] inline void fail_as(const char *sub, std::vector<u64> c, const std::string &msg) {
  throw Failure{msg, sub, std::move(c)};
}
#define CHECK(cond, ...) do { if (!(cond)) pbt::fail(std::string(__VA_ARGS__)); } while (0)

// Run one case; returns false and fills msg on failure.
inline bool run_one(const Sub &sub, Src &s, Failure &f) {
  try {
    sub.fn(s);
  } catch (Failure &x) {
    f = std::move(x);
    return false;
  } catch (Discard &) {
    s.cls("discarded");
  } catch (std::exception &e) {
    f = Failure{std::string("unexpected exception: ") + e.what(), "", {}};
    return false;
  } catch (...) {
    f = Failure{"unexpected exception of unknown type", "", {}};
    return false;
  }
  return true;
}

inline int sub_index(const std::string &n) {
  for (size_t i = 0; i < subs().size(); i++) if (n == subs()[i].name) return int(i);
  return -1;
}

inline std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

}  // namespace pbt

#ifdef PBT_FUZZ
// ---------------------------------------------------------------- libFuzzer
namespace pbt {
inline int &fuzz_sub() { static int i = -1; return i; }
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  const char *n = getenv("PBT_SUB");
  pbt::fuzz_sub() = n ? pbt::sub_index(n) : -1;
  if (pbt::fuzz_sub() < 0) { fprintf(stderr, "PBT_SUB is not set\n"); _exit(3); }
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  static pbt::u64 rec[pbt::REC_CAP];
  pbt::u64 nrec = 0;
  pbt::Src s;
  s.mode = pbt::Src::BYTES;
  s.bytes = data; s.nbytes = size; s.rec = rec; s.nrec = &nrec;
  pbt::Failure f;
  if (!pbt::run_one(pbt::subs()[size_t(pbt::fuzz_sub())], s, f)) {
    fprintf(stderr, "PBT-FAILURE: %s\n", f.msg.c_str());
    abort();
  }
  return 0;
}
#elif !defined(PBT_NO_MAIN)
// -------------------------------------------------------------- the engine
namespace pbt {

struct Options {
  u64 seed = 1;
  bool thorough = false;
  int workers = 8;
  double scale = 1.0;
  double budget = 300;          // seconds; reaching it truncates the search
  double stall = 40;            // seconds without progress: a hang
  bool sweeps = true;           // run the sweeps
  std::string out, replay, only, errdir = ".";
};

inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return static_cast<Shared *>(p);
}

inline u64 planned(const Sub &b, const Options &o) {
  if (b.sweep) return o.sweeps && (b.sweep_quick || o.thorough) ? b.sweep : 0;
  double n = double(o.thorough ? b.thorough : b.quick) * o.scale;
  return n < 1 && (o.thorough ? b.thorough : b.quick) ? 1 : u64(n);
}

inline void record_failure(Shared *sh, const Failure &f) {
  snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
  sh->redirect = f.sub.empty() ? -1 : sub_index(f.sub);
  sh->nredirect = std::min<size_t>(f.choices.size(), 64);
  for (size_t i = 0; i < sh->nredirect; i++) sh->redirect_choices[i] = f.choices[i];
  sh->status = 2;
}

struct Limit { int sub = -1; u64 index = 0; int from_sub = 0; u64 from_index = 0; };

// The whole deterministic run of one worker (or a part of it, for replays of
// histories): cases index = w, w + W, w + 2W, ... of every sub-property.
inline void worker(int w, int W, const Options &o, Shared *sh, Distinct *d, double deadline, const Limit *lim) {
  std::string stats;
  size_t left = 0;                      // sub-properties to come share what time there is
  for (const Sub &sub : subs()) left += (o.only.empty() || o.only == sub.name) && planned(sub, o) > 0;
  for (size_t b = 0; b < subs().size(); b++) {
    const Sub &sub = subs()[b];
    if (!o.only.empty() && o.only != sub.name) continue;
    if (lim && (int(b) > lim->sub)) break;
    if (lim && int(b) < lim->from_sub) continue;
    u64 n = planned(sub, o);
    u64 done = 0, saved = 0;
    bool truncated = false;
    double until = deadline;
    if (n && left) { double t = now(); until = std::min(deadline, t + (deadline - t) * 2 / double(left + 1)); left--; }
    std::map<const char *, u64> classes;
    std::vector<std::string> samples;
    Src s;
    u64 subhash = hash_str(sub.name);
    s.rec = sh->rec; s.nrec = &sh->nrec;
    s.classes = &classes; s.distinct = d; s.salt = subhash;
    s.quota = 400000;
    s.heart = &sh->beat;
    u64 start = u64(w);
    if (lim && int(b) == lim->from_sub) start = lim->from_index;
    for (u64 i = start; i < n; i += u64(W)) {
      sh->sub = int(b); sh->index = i; sh->nrec = 0;
      s.mode = sub.sweep ? Src::SWEEPING : Src::RANDOM;
      s.first = true; s.index = i;
      s.seed(o.seed, subhash, i);
      u64 k = done;
      s.want_desc = !lim && saved < 4 && (k == 2 || k == 11 || k == 97 || k == 1009);
      s.description.clear();
      Failure f;
      if (!run_one(sub, s, f)) { record_failure(sh, f); _exit(42); }
      if (s.want_desc && !s.description.empty()) { samples.push_back(s.description); saved++; }
      done++;
      if (lim && int(b) == lim->sub && i == lim->index) break;
      sh->beat.store(sh->beat.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
      if ((sub.sweep || (done & 15) == 0) && !lim && now() > until) { truncated = true; break; }
    }
    if (n == 0) continue;
    char buf[512];
    snprintf(buf, sizeof buf, "S %s %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %d\n", sub.name, done, n,
             s.n_nontrivial, s.n_enum, s.n_extra, truncated ? 1 : 0);
    stats += buf;
    for (auto &c : classes) { snprintf(buf, sizeof buf, "C %s %" PRIu64 "\n", c.first, c.second); stats += buf; }
    for (auto &x : samples) if (w < 3) stats += "E " + show(x, 600) + "\n";
  }
  if (lim) _exit(0);
  if (stats.size() >= sizeof sh->stats) stats.resize(sizeof sh->stats - 1);
  memcpy(sh->stats, stats.c_str(), stats.size() + 1);
  sh->status = 1;
  _exit(0);
}

inline std::string tail_error(const std::string &path) {
  std::string all; FILE *f = fopen(path.c_str(), "r");
  if (!f) return "";
  char buf[4096];
  std::string best;
  while (fgets(buf, sizeof buf, f)) {
    std::string l = buf;
    if (!l.empty() && l.back() == '\n') l.pop_back();
    if (l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("runtime error") != std::string::npos ||
        l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find("SUMMARY:") != std::string::npos ||
        l.find("Assertion") != std::string::npos || l.find("stack smashing") != std::string::npos ||
        l.find("free()") != std::string::npos || l.find("malloc") != std::string::npos) {
      if (best.size() < 1500) best += (best.empty() ? "" : " | ") + l;
    }
  }
  fclose(f);
  return best;
}

// Outcome of a child process.
struct Outcome { bool failed = false; std::string msg; bool late = false; };

inline void redirect_stderr(const std::string &path) {
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

// Processor time a process has used so far, in seconds.
inline double cpu_of(pid_t pid) {
  char path[64], buf[1024];
  snprintf(path, sizeof path, "/proc/%d/stat", int(pid));
  FILE *f = fopen(path, "r");
  if (!f) return 0;
  size_t n = fread(buf, 1, sizeof buf - 1, f);
  fclose(f);
  buf[n] = 0;
  const char *q = strrchr(buf, ')');
  unsigned long ut = 0, st = 0;
  if (!q || sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &ut, &st) != 2) return 0;
  return double(ut + st) / double(sysconf(_SC_CLK_TCK));
}
// A process hangs if it makes no progress for a time that it spends computing,
// or for two and a half times as long altogether: a busy machine does not make a hang.
struct Hang {
  u64 beat = 0;
  double wall = now(), cpu = -1;
  bool check(pid_t pid, Shared *sh, double limit) {
    u64 b = sh->beat.load();
    double t = now();
    if (b != beat) { beat = b; wall = t; cpu = -1; return false; }
    if (cpu < 0) { cpu = cpu_of(pid); return false; }
    if (t - wall <= limit) return false;
    return t - wall > 2.5 * limit || cpu_of(pid) - cpu > limit;
  }
};

inline Outcome await(pid_t pid, Shared *sh, double timeout, const std::string &err, double total = 1e300) {
  double t0 = now();
  Hang hang;
  int st;
  useconds_t nap = 200;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    bool late = now() - t0 > total;
    if (late || hang.check(pid, sh, timeout)) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      if (late) return {false, "", true};       // no answer
      return {true, "does not terminate within " + std::to_string(int(timeout)) + " s"};
    }
    usleep(nap);
    if (nap < 5000) nap *= 2;
  }
  if (sh->status == 2) return {true, sh->msg};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return {false, ""};
  std::string m = tail_error(err);
  if (WIFSIGNALED(st)) return {true, "crashed with signal " + std::to_string(WTERMSIG(st)) + (m.empty() ? "" : ": " + m)};
  return {true, "exited with status " + std::to_string(WEXITSTATUS(st)) + (m.empty() ? "" : ": " + m)};
}

struct Case { int sub; std::vector<u64> choices; };

inline Outcome try_case(const Case &c, const Options &o, double timeout, std::string *desc = nullptr) {
  Shared *sh = new_shared();
  std::string err = o.errdir + "/try.err";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect_stderr(err);
    Src s;
    s.mode = Src::REPLAY;
    s.list = c.choices.data(); s.nlist = c.choices.size();
    s.rec = sh->rec; s.nrec = &sh->nrec;
    s.heart = &sh->beat;
    s.want_desc = desc != nullptr;
    Failure f;
    bool ok = run_one(subs()[size_t(c.sub)], s, f);
    snprintf(sh->stats, sizeof sh->stats, "%s", s.description.c_str());
    if (!ok) { record_failure(sh, f); _exit(42); }
    _exit(0);
  }
  Outcome r = await(pid, sh, timeout, err, 6 * timeout);
  if (r.failed && r.msg.empty()) r.msg = "failed";
  if (desc) *desc = sh->stats;
  munmap(sh, sizeof(Shared));
  return r;
}

inline Case shrink(Case best, const Options &o, double timeout) {
  double t0 = now();
  int budget = 1500;
  bool hang = timeout > 5 && try_case(best, o, 3).msg.find("does not terminate") == 0;
  auto ok = [&](const Case &c) {
    if (budget <= 0 || now() - t0 > 25) return false;
    budget--;
    return try_case(c, o, hang ? 3 : timeout).failed;
  };
  while (!best.choices.empty() && best.choices.back() == 0) {       // missing choices are 0
    Case c = best; c.choices.pop_back();
    best = c;
  }
  bool progress = true;
  while (progress && budget > 0 && now() - t0 < 25) {
    progress = false;
    for (size_t k = std::min<size_t>(64, best.choices.size()); k >= 1; k /= 2) {
      for (size_t i = best.choices.size(); i-- > 0;) {
        if (i + k > best.choices.size()) continue;
        Case c = best;
        c.choices.erase(c.choices.begin() + long(i), c.choices.begin() + long(i + k));
        if (ok(c)) { best = c; progress = true; }
      }
    }
    for (size_t i = 0; i < best.choices.size(); i++) {
      if (best.choices[i] == 0) continue;
      Case c = best; c.choices[i] = 0;
      if (ok(c)) { best = c; progress = true; continue; }
      u64 lo = 0, hi = best.choices[i];         // hi fails, lo does not
      while (hi - lo > 1) {
        u64 mid = lo + (hi - lo) / 2;
        c = best; c.choices[i] = mid;
        if (ok(c)) { best = c; hi = mid; progress = true; } else lo = mid;
        if (budget <= 0) break;
      }
    }
  }
  while (!best.choices.empty() && best.choices.back() == 0) {
    Case c = best; c.choices.pop_back(); best = c;
  }
  return best;
}

inline void write_replay(const std::string &path, const std::string &kind, const Case &c, const Limit *lim, int w,
                         const Options &o, const std::string &msg, const std::string &desc) {
  FILE *f = fopen(path.c_str(), "w");
  if (!f) { perror(path.c_str()); return; }
  fprintf(f, "kind %s\nsub %s\n", kind.c_str(), subs()[size_t(c.sub)].name);
  fprintf(f, "choices");
  for (u64 x : c.choices) fprintf(f, " %" PRIu64, x);
  fprintf(f, "\n");
  if (lim) fprintf(f, "history %d %d %" PRIu64 " %d %" PRIu64 " %" PRIu64 " %d %.17g %s\n", w, o.workers, o.seed, lim->from_sub,
                   lim->from_index, lim->index, o.thorough ? 1 : 0, o.scale, o.only.empty() ? "-" : o.only.c_str());
  fprintf(f, "what %s\n", show(msg, 3000).c_str());
  fprintf(f, "case %s\n", show(desc, 3000).c_str());
  fclose(f);
}

inline Outcome try_history(int w, const Options &o, const Limit &lim, double timeout) {
  Shared *sh = new_shared();
  std::string err = o.errdir + "/hist.err";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect_stderr(err);
    worker(w, o.workers, o, sh, nullptr, 1e300, &lim);
  }
  Outcome r = await(pid, sh, o.stall, err, timeout);
  munmap(sh, sizeof(Shared));
  return r;
}

// Confirm, shrink and write a failing case.  True if it is confirmed.
inline bool report(Case c, const Options &o, const std::string &first_msg) {
  int n = 0;
  Outcome r;
  for (int i = 0; i < 3 && !r.late; i++) { r = try_case(c, o, 20); n += r.failed; }
  if (n == 3) {
    c = shrink(c, o, 20);
    std::string desc;
    r = try_case(c, o, 20, &desc);
    if (!r.failed) r.msg = first_msg;
    write_replay(o.replay, "single", c, nullptr, 0, o, r.msg, desc);
    printf("FAILED %s: %s\n", subs()[size_t(c.sub)].name, show(r.msg, 1500).c_str());
    return true;
  }
  return false;
}

inline int supervise(const Options &o) {
  int W = o.workers;
  double t0 = now(), deadline = t0 + o.budget;
  std::vector<Shared *> sh;
  std::vector<pid_t> pid;
  std::vector<Hang> hang(static_cast<size_t>(W));
  Distinct *d = static_cast<Distinct *>(
      mmap(nullptr, sizeof(Distinct), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  fflush(nullptr);
  for (int w = 0; w < W; w++) {
    sh.push_back(new_shared());
    pid_t p = fork();
    if (p == 0) {
      redirect_stderr(o.errdir + "/worker" + std::to_string(w) + ".err");
      worker(w, W, o, sh.back(), d, deadline, nullptr);
    }
    pid.push_back(p);
  }
  int bad = -1, alive = W;
  std::string why;
  std::vector<bool> gone(static_cast<size_t>(W), false);
  while (alive > 0 && bad < 0) {
    bool any = false;
    for (size_t w = 0; w < size_t(W); w++) {
      if (gone[w]) continue;
      int st;
      if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
        any = true; gone[w] = true; alive--;
        if (sh[w]->status == 1) continue;
        bad = int(w);
        if (sh[w]->status == 2) why = sh[w]->msg;
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {      // the harness itself gave up
          for (size_t k = 0; k < size_t(W); k++) if (!gone[k]) { kill(pid[k], SIGKILL); waitpid(pid[k], nullptr, 0); }
          FILE *f = fopen((o.errdir + "/worker" + std::to_string(w) + ".err").c_str(), "r");
          char buf[400];
          while (f && fgets(buf, sizeof buf, f)) printf("%s", buf);
          return 3;
        } else {
          why = tail_error(o.errdir + "/worker" + std::to_string(w) + ".err");
          why = (WIFSIGNALED(st) ? "crashed with signal " + std::to_string(WTERMSIG(st))
                                 : "exited with status " + std::to_string(WEXITSTATUS(st))) + (why.empty() ? "" : ": " + why);
        }
        break;
      }
      if (hang[w].check(pid[w], sh[w], o.stall)) {
        kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
        gone[w] = true; alive--; bad = int(w); any = true;
        why = "no progress for " + std::to_string(int(o.stall)) + " s in one case";
        break;
      }
    }
    if (!any) usleep(2000);
  }
  for (size_t w = 0; w < size_t(W); w++) if (!gone[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
  int rc = 0;
  std::string unconfirmed;
  if (bad >= 0) {
    Shared *s = sh[size_t(bad)];
    Case c{s->sub, std::vector<u64>(s->rec, s->rec + s->nrec)};
    bool done = false;
    if (s->status == 2 && s->redirect >= 0) {
      Case r{s->redirect, std::vector<u64>(s->redirect_choices, s->redirect_choices + s->nredirect)};
      done = report(r, o, why);
    }
    if (!done) done = report(c, o, why);
    if (!done) {
      // The case alone does not fail: run the history that led to it.
      Limit lim;
      lim.sub = s->sub; lim.index = s->index; lim.from_sub = 0; lim.from_index = u64(bad);
      int n = 0;
      double tmo = std::min(4 * (now() - t0) + 60, 300.0);
      Outcome h;
      for (int i = 0; i < 3 && !h.late; i++) { h = try_history(bad, o, lim, tmo); n += h.failed; }
      if (n >= 1) {
        Limit best = lim;
        if (n == 3) {
          for (u64 back = 1; back < 10000000; back *= 4) {
            Limit l = lim;
            l.from_sub = lim.sub;
            if (lim.index < back * u64(W)) break;
            l.from_index = lim.index - back * u64(W);
            bool all = true;
            for (int i = 0; i < 2 && all; i++) all = try_history(bad, o, l, tmo).failed;
            if (all) { best = l; break; }
          }
        }
        write_replay(o.replay, "history", c, &best, bad, o, why, "history-dependent: the case fails only after the cases before it");
        printf("FAILED %s (after a history of calls): %s\n", subs()[size_t(c.sub)].name, show(why, 1500).c_str());
        done = true;
      }
    }
    // A deterministic oracle or a sanitizer said so once: that the run cannot
    // be repeated (threads, uninitialised memory) does not make it untrue.
    if (!done && s->status == 0 && why.find("signal 9") == std::string::npos && why.find("no progress") == std::string::npos &&
        why.find("signal 15") == std::string::npos) s->status = 3;
    if (!done && s->status != 0) {
      Limit lim;
      lim.sub = s->sub; lim.index = s->index; lim.from_sub = 0; lim.from_index = u64(bad);
      write_replay(o.replay, "history", c, &lim, bad, o, why, "not repeatable: seen once in a run of this history");
      printf("FAILED %s (seen once, the same history passed when repeated): %s\n", subs()[size_t(c.sub)].name, show(why, 1500).c_str());
      done = true;
    }
    if (done) rc = 1;
    else { unconfirmed = why; printf("UNCONFIRMED %s: %s\n", subs()[size_t(s->sub)].name, show(why, 1500).c_str()); }
  }
  // statistics
  struct Agg { u64 done = 0, plan = 0, nt = 0, en = 0, ex = 0; bool trunc = false; std::map<std::string, u64> cls; std::vector<std::string> ex_s; };
  std::map<std::string, Agg> agg;
  for (int w = 0; w < W; w++) {
    std::string t = sh[size_t(w)]->stats, cur;
    size_t p = 0;
    while (p < t.size()) {
      size_t e = t.find('\n', p);
      if (e == std::string::npos) break;
      std::string l = t.substr(p, e - p);
      p = e + 1;
      if (l[0] == 'S') {
        char name[200]; u64 a, b, c, en, ex; int tr;
        if (sscanf(l.c_str(), "S %199s %" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64 " %d", name, &a, &b, &c, &en, &ex, &tr) == 7) {
          cur = name;
          Agg &g = agg[cur];
          g.done += a; g.plan = b; g.nt += c; g.en += en; g.ex += ex; g.trunc |= tr != 0;
        }
      } else if (l[0] == 'C') {
        size_t q = l.rfind(' ');
        agg[cur].cls[l.substr(2, q - 2)] += strtoull(l.c_str() + q, nullptr, 10);
      } else if (l[0] == 'E') agg[cur].ex_s.push_back(l.substr(2));
    }
  }
  FILE *f = fopen(o.out.c_str(), "w");
  if (f) {
    u64 ev = 0, en = 0, nt = 0;
    for (auto &g : agg) { ev += g.second.done + g.second.ex; en += g.second.en; nt += g.second.nt; }
    fprintf(f, "{\"evaluations\": %" PRIu64 ", \"nontrivial\": %" PRIu64 ", \"distinct_hashed\": %" PRIu64 ", \"distinct_enumerated\": %" PRIu64
            ", \"wall_s\": %.3f, \"failed\": %d, \"unconfirmed\": %s,\n \"subs\": {", ev, nt + en, d->count.load(), en, now() - t0, rc,
            json_str(unconfirmed).c_str());
    bool first = true;
    for (auto &g : agg) {
      fprintf(f, "%s\n  %s: {\"cases\": %" PRIu64 ", \"planned\": %" PRIu64 ", \"values\": %" PRIu64 ", \"nontrivial\": %" PRIu64 ", \"truncated\": %s, \"classes\": {",
              first ? "" : ",", json_str(g.first).c_str(), g.second.done, g.second.plan, g.second.done + g.second.ex, g.second.nt + g.second.en, g.second.trunc ? "true" : "false");
      first = false;
      bool f2 = true;
      for (auto &c : g.second.cls) { fprintf(f, "%s%s: %" PRIu64, f2 ? "" : ", ", json_str(c.first).c_str(), c.second); f2 = false; }
      fprintf(f, "}, \"samples\": [");
      for (size_t i = 0; i < g.second.ex_s.size() && i < 4; i++) fprintf(f, "%s%s", i ? ", " : "", json_str(g.second.ex_s[i]).c_str());
      fprintf(f, "]}");
    }
    fprintf(f, "}}\n");
    fclose(f);
  }
  return rc;
}

inline int replay_file(const std::string &path, Options o) {
  FILE *f = fopen(path.c_str(), "r");
  if (!f) { perror(path.c_str()); return 3; }
  std::string kind, line, hist;
  Case c{-1, {}};
  int ch;
  std::vector<std::string> lines(1);
  while ((ch = fgetc(f)) != EOF) { if (ch == '\n') lines.emplace_back(); else lines.back() += char(ch); }
  fclose(f);
  for (auto &l : lines) {
    if (l.rfind("kind ", 0) == 0) kind = l.substr(5);
    if (l.rfind("sub ", 0) == 0) c.sub = sub_index(l.substr(4));
    if (l.rfind("history ", 0) == 0) hist = l.substr(8);
    if (l.rfind("choices", 0) == 0) {
      const char *p = l.c_str() + 7;
      char *e;
      for (;;) { errno = 0; u64 v = strtoull(p, &e, 10); if (e == p) break; c.choices.push_back(v); p = e; }
    }
  }
  if (c.sub < 0) { fprintf(stderr, "unknown sub-property\n"); return 3; }
  Outcome r;
  std::string desc;
  if (kind == "history") {
    int w, W, th; u64 seed, fi, ix; int fs; double scale; char only[200];
    if (sscanf(hist.c_str(), "%d %d %" SCNu64 " %d %" SCNu64 " %" SCNu64 " %d %lf %199s", &w, &W, &seed, &fs, &fi, &ix, &th, &scale, only) != 9) return 3;
    o.workers = W; o.seed = seed; o.thorough = th; o.scale = scale;
    if (strcmp(only, "-")) o.only = only;
    Limit lim; lim.sub = c.sub; lim.index = ix; lim.from_sub = fs; lim.from_index = fi;
    r = try_history(w, o, lim, 600);
  } else r = try_case(c, o, 20, &desc);
  printf("case: %s\n%s%s\n", show(desc, 3000).c_str(), r.failed ? "FAILS: " : "holds", show(r.failed ? r.msg : "", 3000).c_str());
  return r.failed ? 1 : 0;
}

}  // namespace pbt

int main(int argc, char **argv) {
  using namespace pbt;
  Options o;
  std::string cmd = argc > 1 ? argv[1] : "", file, subname;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--tier") o.thorough = v == "thorough";
    else if (k == "--workers") o.workers = atoi(v.c_str());
    else if (k == "--scale") o.scale = atof(v.c_str());
    else if (k == "--budget") o.budget = atof(v.c_str());
    else if (k == "--stall") o.stall = atof(v.c_str());
    else if (k == "--out") o.out = v;
    else if (k == "--replay") o.replay = v;
    else if (k == "--only") o.only = v;
    else if (k == "--sweeps") o.sweeps = v != "0";
    else if (k == "--errdir") o.errdir = v;
    else if (k == "--file") file = v;
    else if (k == "--sub") subname = v;
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 3; }
  }
  if (cmd == "run") return supervise(o);
  if (cmd == "replay") return replay_file(file, o);
  if (cmd == "list") {
    for (auto &b : subs()) printf("%s %d\n", b.name, b.fuzz ? 1 : 0);
    return 0;
  }
  if (cmd == "bytes") {         // confirm, shrink and write an input libFuzzer saved
    FILE *f = fopen(file.c_str(), "rb");
    if (!f) return 3;
    std::string data; int ch;
    while ((ch = fgetc(f)) != EOF) data += char(ch);
    fclose(f);
    int sub = sub_index(subname);
    if (sub < 0) return 3;
    Shared *sh = new_shared();
    fflush(nullptr);
    pid_t pid = fork();         // decode in a child: the case may crash
    if (pid == 0) {
      redirect_stderr(o.errdir + "/decode.err");
      Src s;
      s.mode = Src::BYTES; s.bytes = reinterpret_cast<const u8 *>(data.data()); s.nbytes = data.size();
      s.rec = sh->rec; s.nrec = &sh->nrec;
      Failure x;
      if (!run_one(subs()[size_t(sub)], s, x)) record_failure(sh, x);
      _exit(0);
    }
    await(pid, sh, 20, o.errdir + "/decode.err");
    Case c{sub, std::vector<u64>(sh->rec, sh->rec + sh->nrec)};
    return report(c, o, sh->msg) ? 1 : 0;
  }
  fprintf(stderr, "usage: %s run|replay|list|bytes ...\n", argv[0]);
  return 3;
}
#endif
