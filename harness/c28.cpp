// C28: time and memory in proportion to the text, and a stack of bounded size.
#include "alloc.hpp"
#include "gen.hpp"
#include "oracle.hpp"
#include "places.hpp"
#include <ctime>
#include <lexi/lexi.hpp>
#include <pthread.h>
using namespace pbt;

constexpr size_t STACK = 128 << 10;
constexpr double FIXED = 0.5, PER_BYTE = 400e-9;        // seconds of processor time
constexpr long MEM_FIXED = 1 << 20, MEM_PER_BYTE = 64;

static const char *const OPS[] = {"escape", "jsonify", "lexi", "string", "escape of a C string", "jsonify of a C string", "extracting bool", "extracting null", "extracting char", "extracting int",
                                  "extracting unsigned long long", "extracting double", "extracting float", "extracting long double", "extracting long from a C string", "extracting double from a C string",
                                  "extracting signed char", "copying an extractor"};
constexpr u64 NOPS = sizeof OPS / sizeof *OPS;
struct Job { u64 op; std::string t; std::string out; bool done = false; alloc::State mem; double cpu = 0; };
static void work(Job &j) {
  const std::string &t = j.t;
  volatile double sink = 0;
  try {
    switch (j.op) {
      case 0: j.out = lexi::escape(t); break;
      case 1: j.out = lexi::jsonify(t); break;
      case 2: j.out = lexi::lexi(t); break;
      case 3: j.out = lexi::string(t); break;
      case 4: j.out = lexi::escape(t.c_str()); break;
      case 5: j.out = lexi::jsonify(t.c_str()); break;
      case 6: sink = lexi::lexi<bool>(t); break;
      case 7: lexi::lexi<std::nullptr_t>(t); break;
      case 8: sink = lexi::lexi<char>(t); break;
      case 9: sink = lexi::lexi<int>(t); break;
      case 10: sink = double(lexi::lexi<unsigned long long>(t)); break;
      case 11: sink = lexi::lexi<double>(t); break;
      case 12: sink = lexi::lexi<float>(t); break;
      case 13: sink = double(lexi::lexi<long double>(t)); break;
      case 14: sink = double(lexi::lexi<long>(t.c_str())); break;
      case 15: sink = lexi::lexi<double>(t.c_str()); break;
      case 16: sink = lexi::lexi<signed char>(t); break;
      default: { lexi::ExtractFloat a(t), b(a), c("1"); c = b; sink = static_cast<double>(c); }
    }
  } catch (const std::runtime_error &) {
  }
}
static void *thread_main(void *p) {
  Job &j = *static_cast<Job *>(p);
  alloc::start();
  work(j);
  j.mem = alloc::stop();
  timespec ts; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &ts); j.cpu = double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
  __atomic_store_n(&j.done, true, __ATOMIC_RELEASE);
  return nullptr;
}
static double cpu_of(pthread_t th) {
  clockid_t c; timespec ts;
  if (pthread_getcpuclockid(th, &c) || clock_gettime(c, &ts)) return 0;
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}
static void one(Src &s, u64 op, const std::string &t, u64 place = 0) {
  Job *j = new Job{op, t};            // outlives a failure, for the thread that goes on
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, STACK);
  pthread_t th;
  places::Under under(place, true);
  if (pthread_create(&th, &a, thread_main, j)) { perror("pthread_create"); _exit(3); }
  double limit = FIXED + PER_BYTE * double(t.size());
  std::string what = std::string(OPS[op]) + " of " + oracle::dec(t.size()) + " bytes " + show(t, 40) + under.what;
  for (useconds_t w = 20;; w = std::min<useconds_t>(w * 2, 20000)) {
    double c = cpu_of(th);
    if (__atomic_load_n(&j->done, __ATOMIC_ACQUIRE)) break;
    if (c > limit) fail(what + " takes more than " + std::to_string(limit) + " s of processor time");
    usleep(w);
  }
  pthread_join(th, nullptr);
  pthread_attr_destroy(&a);
  long lim = MEM_FIXED + MEM_PER_BYTE * long(t.size());
  long peak = j->mem.peak, size = long(j->out.size());
  double used = j->cpu / limit;
  s.cls(used > 0.3 ? "over 30% of the time allowed" : used > 0.1 ? "10% to 30% of the time allowed" : used > 0.03 ? "3% to 10% of the time allowed" : "under 3% of the time allowed");
  s.cls(peak > lim / 4 ? "over 25% of the memory allowed" : "under 25% of the memory allowed");
  delete j;
  CHECK(peak <= lim, what + " takes " + oracle::dec_signed(peak) + " bytes of memory");
  CHECK(size <= 6 * long(t.size()) + 2, what + " gives " + oracle::dec_signed(size) + " bytes");
}
// Texts in the shapes that make loops run long: runs of one unit, numbers of
// many zeros or digits, spaces, and what may precede and follow.
static std::string shaped(Src &s, u64 n) {
  static const char *UNIT[] = {"a", "0", "9", " ", "\\", "\"", "\n", "\x01", "-", "+", ".", "e", "1", "\t ", "true", "\xc3\xa9", "/", "0.", "null", "\xff", "e1", "12345", "5", ",", "1,", "1. "};
  static const char *HEAD[] = {"", "1", "0.", "-", "1.", "1e", "1e-", ".", "0", " ", "+0", "9.", "0x", "0e", "123456789", "t", "n", "-0."};
  static const char *TAIL[] = {"", "1", "e5", ".5", "e-400", "x", "9", " 1", ".", "\"", "\\", "e", ",", ",5"};
  std::string u = s.draw(6) ? s.pick(UNIT) : s.draw(2) ? std::string(1, char(s.draw(256))) : gen::const_str(s), h = s.pick(HEAD), t = s.pick(TAIL), o = h;
  if (u.empty()) u = "a";
  u64 split = s.draw(3) ? 0 : s.draw(n + 1);            // a second kind of run after so many bytes
  while (o.size() < (split ? split : n)) o += u;
  if (split) { std::string v = s.draw(3) ? s.pick(UNIT) : "."; o += s.pick(TAIL); while (o.size() < n) o += v; }
  return o + t;
}
PROP_NOFUZZ(medium, 12000, 200000) {
  u64 op = s.draw(NOPS), n = 1000 + s.draw(200000);
  u64 l = s.flip() ? 0 : s.draw(places::all().size());
  std::string t = shaped(s, n);
  s.desc([&] { return std::string(OPS[op]) + " of " + oracle::dec(t.size()) + " bytes " + show(t, 40); });
  s.nontrivial(hash_str(t, op));
  one(s, op, t, l);
}
PROP_NOFUZZ(large, 1500, 8000) {
  u64 op = s.draw(NOPS), n = s.draw(4) ? 1000000 + s.draw(2000000) : 4000000 + s.draw(4000000);
  u64 l = s.flip() ? 0 : s.draw(places::all().size());
  std::string t = shaped(s, n);
  s.desc([&] { return std::string(OPS[op]) + " of " + oracle::dec(t.size()) + " bytes " + show(t, 40); });
  s.nontrivial(hash_str(t, op));
  one(s, op, t, l);
}
PROP_NOFUZZ(huge, 0, 300) {
  u64 op = s.draw(NOPS), n = 20000000 + s.draw(80000000);
  u64 l = s.flip() ? 0 : s.draw(places::all().size());
  std::string t = shaped(s, n);
  s.desc([&] { return std::string(OPS[op]) + " of " + oracle::dec(t.size()) + " bytes " + show(t, 40); });
  s.nontrivial(hash_str(t, op));
  one(s, op, t, l);
}
// every operation with every byte, a million times
SWEEP(runs, 256) {
  u64 c = s.draw(256);
  std::string t(1000000, char(c));
  for (u64 op = 0; op < NOPS; op++) one(s, op, t);
  std::string v = "1" + t + "1", w = "0." + t + "1e1";
  for (u64 op = 9; op < NOPS; op++) { one(s, op, v); one(s, op, w, c + op); }
  for (u64 op : {9, 11, 13}) one(s, op, t, c + op);
  s.enumerated(NOPS * 3 - 18); s.evaluated(NOPS * 3 - 19);
}
