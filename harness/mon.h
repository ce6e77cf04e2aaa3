// Monitoring framework used by every harness (see DESIGN.md).
//
// A harness registers families of numbered cases.  tools/run.py runs slices of a
// family in separate processes; everything a case needs is derived from
// (seed, property, family, case number), so any case can be replayed alone.
#ifndef VERIF_MON_H
#define VERIF_MON_H
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mon {
typedef unsigned long long u64;

inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline u64 hash_str(const char *s, size_t n, u64 h = 1469598103934665603ULL) {
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)s[i]) * 1099511628211ULL;
  return h;
}
inline u64 hash_str(const std::string &s) { return hash_str(s.data(), s.size()); }

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  long below(long n) { return n <= 0 ? 0 : (long)(next() % (u64)n); }
  long in(long a, long b) { return (long)((u64)a + next() % ((u64)b - (u64)a + 1)); }  // inclusive
  bool chance(double p) { return unit() < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * unit(); }
  double normal() {
    double u = 0;
    for (int i = 0; i < 12; i++) u += unit();
    return u - 6;
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Stop {};  // ends a case after a violation was recorded

struct Shared {  // one page-aligned file mapped by the runner's child
  volatile long current;      // case in progress (-1: none)
  volatile long done;         // cases finished
  volatile long checks;       // oracle decisions taken
  volatile long nsigs;        // distinct observations
  volatile long aborts;       // misuse children judged
  volatile long events;       // trace events seen (histories)
  char desc[4096 - 6 * 8];
  u64 sigs[1 << 17];
};

struct Options {
  std::string prop, family, out, progress, tier, scratch;
  long begin, end;
  u64 seed;
  bool leaks;  // every case has to release what it allocated
  Options() : leaks(false), tier("quick"), scratch("/tmp"), begin(0), end(0), seed(1) {}
};
inline Options &opt() { static Options o; return o; }
inline Shared *&shared() { static Shared *s = 0; return s; }
inline bool thorough() { return opt().tier == "thorough"; }

inline std::string json(const std::string &s) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char ch = s[i];
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
inline void emit(const std::string &line) {
  std::string l = line + "\n";
  if (opt().out.empty()) { fputs(l.c_str(), stdout); fflush(stdout); return; }
  int fd = open(opt().out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0 || write(fd, l.data(), l.size()) != (ssize_t)l.size()) { perror("emit"); _exit(99); }
  close(fd);
}

struct Case {
  Rng r;
  std::string family;
  long index;
  std::ostringstream what;  // description of the generated input
  bool sampled;
  Case(const std::string &f, long i)
      : r(mix(mix(opt().seed) ^ hash_str(opt().prop) ^ mix(hash_str(f)) ^ mix(i * 2654435761ULL + 77))),
        family(f), index(i), sampled(false) { what.precision(17); }
  // Publish the description: call before running the code under test.
  void ready() {
    std::string w = what.str();
    size_t n = std::min(w.size(), sizeof(shared()->desc) - 1);
    memcpy(shared()->desc, w.data(), n);
    shared()->desc[n] = 0;
    if (!sampled && index < 2) {
      sampled = true;
      emit("{\"t\":\"sample\",\"family\":" + json(family) + ",\"case\":" + std::to_string(index) +
           ",\"text\":" + json(w.substr(0, 300)) + "}");
    }
  }
  // Record an observation; distinct ones are counted.
  void saw(const std::string &s) { saw(hash_str(s)); }
  void saw(u64 h) {
    h = mix(h ^ mix(hash_str(family)));
    if (!h) h = 1;
    const u64 N = sizeof(shared()->sigs) / sizeof(u64);
    for (u64 i = 0; i < 64; i++) {
      u64 &slot = shared()->sigs[(h + i) % N];
      if (slot == h) return;
      if (!slot) { slot = h; shared()->nsigs++; return; }
    }
  }
  void saw_what() { saw(what.str()); }
  void report(const std::string &key, const std::string &msg) {
    emit("{\"t\":\"violation\",\"key\":" + json(family + ":" + key) + ",\"family\":" + json(family) +
         ",\"case\":" + std::to_string(index) + ",\"msg\":" + json(msg.substr(0, 1500)) +
         ",\"input\":" + json(what.str().substr(0, 1500)) + "}");
  }
  void fail(const std::string &key, const std::string &msg) { report(key, msg); throw Stop(); }
  void check(bool ok, const std::string &key, const std::string &msg = "") {
    shared()->checks++;
    if (!ok) fail(key, msg);
  }
};
#define CHECK_MSG(c, ok, key, streamexpr)                                   \
  do {                                                                      \
    mon::shared()->checks++;                                                \
    if (!(ok)) { std::ostringstream o_; o_.precision(17); o_ << streamexpr; (c).fail(key, o_.str()); } \
  } while (0)

typedef void (*CaseFn)(Case &);
struct Family { const char *prop, *name; CaseFn fn; long nquick, nthorough; };
inline std::vector<Family> &registry() { static std::vector<Family> v; return v; }
struct Reg {
  Reg(const char *p, const char *n, CaseFn f, long q, long t) { Family x = {p, n, f, q, t}; registry().push_back(x); }
};
#define FAMILY(prop, name, nq, nt)                                      \
  static void fam_##prop##_##name(mon::Case &c);                        \
  static mon::Reg reg_##prop##_##name(#prop, #name, fam_##prop##_##name, nq, nt); \
  static void fam_##prop##_##name(mon::Case &c)

// ---- children ------------------------------------------------------------
struct ChildEnd {
  bool returned;      // the function came back
  bool signaled;
  int code;           // exit code or signal
  bool sanitizer;     // a sanitizer reported
  bool timeout;
  std::string err;    // beginning of its stderr
  bool aborted() const { return !returned && !sanitizer && !timeout && ((signaled && code == SIGABRT) || (!signaled && code != 0)); }
  std::string text() const {
    std::ostringstream o;
    if (returned) o << "returned"; else if (timeout) o << "timeout";
    else if (sanitizer) o << "sanitizer report"; else o << (signaled ? "signal " : "exit ") << code;
    if (err.size()) o << " stderr: " << err.substr(0, 600);
    return o.str();
  }
};
const int RETURNED = 123, SANITIZER = 77;

template <class F> ChildEnd run_child(F f, int seconds = 60) {
  int p[2];
  if (pipe(p)) { perror("pipe"); _exit(99); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(99); }
  if (pid == 0) {
    close(p[0]);
    dup2(p[1], 2); dup2(p[1], 1);
    close(p[1]);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGALRM, SIG_DFL);
    alarm(seconds);
    f();
    _exit(RETURNED);
  }
  close(p[1]);
  ChildEnd e;
  char buf[4096];
  for (;;) {
    ssize_t n = read(p[0], buf, sizeof buf);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    if (e.err.size() < 8000) e.err.append(buf, n);
  }
  close(p[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  e.signaled = WIFSIGNALED(st);
  e.code = e.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
  e.returned = !e.signaled && e.code == RETURNED;
  e.sanitizer = (!e.signaled && e.code == SANITIZER) || e.err.find("Sanitizer") != std::string::npos ||
                e.err.find("runtime error:") != std::string::npos;
  e.timeout = e.signaled && e.code == SIGALRM;
  shared()->aborts++;
  return e;
}
// The call must stop the program by itself.
template <class F> void expect_abort(Case &c, const std::string &key, F f) {
  ChildEnd e = run_child(f);
  if (e.timeout) e = run_child(f, 180);
  shared()->checks++;
  if (!e.aborted())
    c.fail(key + (e.returned ? ":returned" : e.sanitizer ? ":memory" : e.timeout ? ":hang" : ":signal"), e.text());
}

// ---- scratch -------------------------------------------------------------
inline std::string scratch_dir() {  // created by the runner, removed by it
  return opt().scratch;
}

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
inline int run_once(const Family &f, long i, bool quiet = false) {
  Case c(f.name, i);
  c.sampled = quiet;
  int bad = 0;
  try { f.fn(c); } catch (Stop &) { bad = 1; }
  catch (std::exception &e) { c.report("exception", std::string("uncaught C++ exception: ") + e.what()); bad = 1; }
  return bad;
}
// The same case again and again: tables that libraries keep grow at first, but not every time.
inline void watch_leaks(const Family &f, long i) {
  long b[7];
  for (int k = 0; k < 7; k++) {
    b[k] = (long)__sanitizer_get_current_allocated_bytes();
    if (k && b[k] <= b[k - 1]) return;
    if (k < 6 && run_once(f, i, true)) return;
  }
  shared()->checks++;
  Case c(f.name, i);
  c.what << shared()->desc;
  c.report("leak", "allocated bytes before each repetition: " + std::to_string(b[0]) + ' ' + std::to_string(b[1]) + ' ' + std::to_string(b[2]) + ' ' + std::to_string(b[3]) + ' ' + std::to_string(b[4]) + ' ' + std::to_string(b[5]) + ' ' + std::to_string(b[6]));
}
inline int run_case(const Family &f, long i) {
  shared()->current = i;
  shared()->desc[0] = 0;
  int bad = run_once(f, i);
  if (!bad && opt().leaks && &__sanitizer_get_current_allocated_bytes) watch_leaks(f, i);
  shared()->done++;
  shared()->current = -1;
  return bad;
}

inline int main_(int argc, char **argv) {
  bool list = false;
  Options &o = opt();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list") { list = true; continue; }
    if (i + 1 >= argc) return 98;
    std::string v = argv[++i];
    if (a == "--prop") o.prop = v;
    else if (a == "--family") o.family = v;
    else if (a == "--begin") o.begin = atol(v.c_str());
    else if (a == "--end") o.end = atol(v.c_str());
    else if (a == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--out") o.out = v;
    else if (a == "--progress") o.progress = v;
    else if (a == "--tier") o.tier = v;
    else if (a == "--leaks") o.leaks = v == "1";
    else if (a == "--scratch") o.scratch = v;
    else return 98;
  }
  if (list) {
    for (size_t k = 0; k < registry().size(); k++)
      printf("%s %s %ld %ld\n", registry()[k].prop, registry()[k].name, registry()[k].nquick, registry()[k].nthorough);
    return 0;
  }
  void *m = MAP_FAILED;
  if (o.progress.size()) {
    int fd = open(o.progress.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("progress"); return 99; }
    m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  } else {
    m = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  if (m == MAP_FAILED) { perror("mmap"); return 99; }
  shared() = (Shared *)m;
  for (size_t k = 0; k < registry().size(); k++) {
    const Family &f = registry()[k];
    if (o.prop != f.prop || o.family != f.name) continue;
    for (long i = o.begin; i < o.end; i++) run_case(f, i);
    fflush(stdout); fflush(stderr);
    _exit(0);
  }
  fprintf(stderr, "no family %s/%s\n", o.prop.c_str(), o.family.c_str());
  return 98;
}
}  // namespace mon
#define MON_MAIN int main(int argc, char **argv) { return mon::main_(argc, argv); }
#endif
